"""Selection of the lines to compact (P36)."""
IX = "src/index/mod.rs"
REM = "(rng.next_u64() % tokens.len() as u64) as usize"
LE = "        if tokens.len() <= n {\n"
FORN = "        for _ in 0..n {\n            // In order"
INS = "            res.insert(tokens[index]);\n"
LOG = "length.mul_add(length.log2() + GAMMA, 0.5)"
RET = "        (n_draws * compacting_rate) as usize\n"
LET = "            let index = " + REM + ";\n"
ALL = "            return tokens.iter().copied().collect();\n"
M = [
 ("mod-n", "bug", ["P36"], [(IX, REM, "(rng.next_u64() % n as u64) as usize")]),
 ("mod-1", "bug", ["P36"], [(IX, REM, "(rng.next_u64() % (tokens.len() as u64 - 1)) as usize")]),
 ("lt", "bug", ["P36"], [(IX, LE, LE.replace("<=", "<"))]),
 ("once", "bug", ["P36"], [(IX, FORN, "        let draw = rng.next_u64();\n" + FORN), (IX, LET, LET.replace("rng.next_u64()", "draw"))]),
 ("one-less", "bug", ["P36"], [(IX, FORN, FORN.replace("0..n", "1..n"))]),
 ("half", "bug", ["P36"], [(IX, FORN, FORN.replace("0..n", "0..n / 2"))]),
 ("step", "bug", ["P36"], [(IX, LET, LET.replace("rng.next_u64()", "(rng.next_u64() & !1)"))]),
 ("u8", "bug", ["P36"], [(IX, LET, LET.replace("rng.next_u64()", "u64::from(rng.next_u64() as u8)"))]),
 ("rate-sq", "bug", ["P36"], [(IX, RET, RET.replace("compacting_rate)", "compacting_rate * compacting_rate)"))]),
 ("no-rate", "bug", ["P36"], [(IX, RET, "        let _ = compacting_rate;\n        n_draws.sqrt() as usize\n")]),
 ("no-log", "bug", ["P36"], [(IX, LOG, "length.mul_add(1.0 + GAMMA, 0.5)")]),
 ("skip-guard", "bug", ["P36"], [(IX, INS, "            if tokens[index] != tokens[0] {\n                res.insert(tokens[index]);\n            }\n")]),
 ("sorted", "bug", ["P36"], [(IX, LET, "            let index = res.len() % tokens.len();\n            let _ = rng.next_u64();\n")]),
 # refs
 ("ok-mulx", "ref", [], [(IX, LOG, "length * (length.log2() + GAMMA) + 0.5")]),
 ("ok-ge", "ref", [], [(IX, LE, "        if n >= tokens.len() {\n")]),
 ("ok-get", "ref", [], [(IX, INS, "            let token = &tokens[index];\n            if !res.contains(token) {\n                res.insert(*token);\n            }\n")]),
 ("ok-collect", "ref", [], [(IX, "        let mut res = HashSet::with_capacity(n);\n" + FORN, "        let len = tokens.len() as u64;\n        let mut res = HashSet::with_capacity(n);\n" + FORN), (IX, LET, LET.replace("tokens.len() as u64", "len"))]),
 ("ok-map", "ref", [], [(IX, """        let mut res = HashSet::with_capacity(n);
        for _ in 0..n {
            // In order to draw a random element from the set, draw a random `u64` and use
            // it modulo the length of the set. This is not perfectly uniform but should be
            // enough in practice.
            let index = (rng.next_u64() % tokens.len() as u64) as usize;
            res.insert(tokens[index]);
        }
        res
""", "        (0..n).map(|_| tokens[(rng.next_u64() % tokens.len() as u64) as usize]).collect()\n")]),
 ("ok-while", "ref", [], [(IX, FORN, "        let mut i = 0;\n        while i < n {\n            i += 1;\n            // In order")]),
 ("ok-helper", "ref", [], [(IX, LET, "            let index = Self::draw(&mut *rng, tokens.len());\n"), (IX, "    fn select_random_tokens(", "    fn draw(rng: &mut impl cosmian_crypto_core::reexport::rand_core::CryptoRngCore, n: usize) -> usize {\n        (rng.next_u64() % n as u64) as usize\n    }\n\n    fn select_random_tokens(")]),
]
