"""Keys and seeds (P28, P29)."""
ES = "src/edx/structs.rs"
IX = "src/index/mod.rs"
MM = "src/findex_mm/mm.rs"
MC = "src/findex_mm/compact.rs"
ET = "src/edx/entry_table.rs"
DROP = "    fn drop(&mut self) {\n        self.zeroize();\n    }\n"
DI = "impl<const LENGTH: usize> Drop for Seed<LENGTH> {\n" + DROP + "}\n"
Z = "        self.0.zeroize();\n"
ADD = "        trace!(\"add: entering: additions: {additions}\");\n"
SEARCH = "        seed.as_mut().copy_from_slice(key.as_bytes());\n        let key = self.findex_graph.derive_keys(&seed);\n\n        let graph"
INS = "    #[instrument(ret(Display), err, skip_all)]\n    async fn add("
ENT = """                Error::<UserError>::Crypto(format!(
                    "{entry_token:?} not found in entries from the continuation data"
                ))
            })?;
"""
META = """        let chain_key = self.chain_table.derive_keys(&entry.seed);
        let chain_tokens = entry
"""
HELP = "\nfn trace_bytes(name: &str, bytes: &[u8]) {\n    trace!(\"{name}: {} bytes\", bytes.len());\n    trace!(\"{bytes:?}\");\n}\n\nimpl<\n        UserError: DbInterfaceErrorTrait,\n        EntryTable: DxEnc<ENTRY_LENGTH, Error = Error<UserError>> + TokenDump<Error = Error<UserError>>,\n"
IMPL = "\nimpl<\n        UserError: DbInterfaceErrorTrait,\n        EntryTable: DxEnc<ENTRY_LENGTH, Error = Error<UserError>> + TokenDump<Error = Error<UserError>>,\n        ChainTable: DxEnc<LINK_LENGTH, Error = Error<UserError>>,\n    > Findex<"
HELPI = HELP + "        ChainTable: DxEnc<LINK_LENGTH, Error = Error<UserError>>,\n    > Findex<"
HELPOK = HELPI.replace("    trace!(\"{bytes:?}\");\n", "")
M = [
 # --- bugs
 ("drop-empty", "bug", ["P28"], [(ES, DROP, "    fn drop(&mut self) {}\n")]),
 ("drop-gone", "bug", ["P28"], [(ES, DI, "")]),
 ("partial", "bug", ["P28"], [(ES, Z, "        self.0[1..].zeroize();\n")]),
 ("half", "bug", ["P28"], [(ES, Z, "        self.0[..LENGTH / 2].zeroize();\n")]),
 ("cond", "bug", ["P28"], [(ES, Z, "        if self.0[0] != 0 {\n            self.0.zeroize();\n        }\n")]),
 ("fill", "bug", ["P28"], [(ES, Z, "        self.0.fill(0);\n")]),
 ("copy-wiped", "bug", ["P28"], [(ES, Z, "        let mut seed = self.0;\n        seed.zeroize();\n")]),
 ("forget", "bug", ["P28"], [(IX, SEARCH, SEARCH.replace("\n\n        let graph", "\n        std::mem::forget(seed);\n\n        let graph"))]),
 ("manual", "bug", ["P28"], [(IX, SEARCH, SEARCH.replace("&seed);", "&std::mem::ManuallyDrop::new(seed));"))]),
 ("vec", "bug", ["P28"], [(IX, SEARCH, "        let bytes = key.as_bytes().to_vec();\n        seed.as_mut().copy_from_slice(&bytes);\n        let key = self.findex_graph.derive_keys(&seed);\n\n        let graph")]),
 ("array", "bug", ["P28"], [(IX, SEARCH, "        let mut bytes = [0; crate::USER_KEY_LENGTH];\n        bytes.copy_from_slice(key.as_bytes());\n        seed.as_mut().copy_from_slice(&bytes);\n        let key = self.findex_graph.derive_keys(&seed);\n\n        let graph")]),
 ("skip-self", "bug", ["P29"], [(IX, INS, INS.replace("skip_all", "skip(self)"))]),
 ("log-seed", "bug", ["P29"], [(IX, SEARCH, SEARCH.replace("\n\n        let graph", "\n        trace!(\"search: seed: {:?}\", seed.as_ref());\n\n        let graph"))]),
 ("log-key", "bug", ["P29"], [(IX, ADD, ADD + "        trace!(\"add: key: {key:?}\");\n")]),
 ("log-field", "bug", ["P29"], [(IX, ADD, ADD + "        trace!(key = ?key, \"add\");\n")]),
 ("log-part", "bug", ["P29"], [(IX, ADD, ADD + "        trace!(\"add: key: {:x?}..\", &key.as_bytes()[..4]);\n")]),
 ("log-map", "bug", ["P29"], [(IX, ADD, ADD + "        let k = key.as_bytes().iter().map(|b| format!(\"{b:02x}\")).collect::<String>();\n        trace!(\"add: {k}\");\n")]),
 ("log-help", "bug", ["P29"], [(IX, ADD, ADD + "        trace_bytes(\"key\", key.as_bytes());\n"), (IX, IMPL, HELPI)]),
 ("err-entry", "bug", ["P29"], [(MC, ENT, ENT.replace("found in entries from the continuation data\"", "found in entries from the continuation data ({})\", new_key_of(&rng)").replace("new_key_of(&rng)", "continuation_seed"))
    , (MC, "            let old_entry = continuation.entries.get_mut", "            let continuation_seed = continuation.entries.values().next().map(|e| e.to_string()).unwrap_or_default();\n            let old_entry = continuation.entries.get_mut")]),
 ("log-entry", "bug", ["P29"], [(MC, "            *old_entry = new_entry;\n", "            debug!(\"new entry: {new_entry}\");\n            *old_entry = new_entry;\n")]),
 ("err-seed", "bug", ["P29"], [(MM, "            .map(|last_token| self.unroll(&chain_key, &entry.tag_hash, last_token))\n", "            .map(|last_token| {\n                eprintln!(\"{:?}\", entry.seed.as_ref());\n                self.unroll(&chain_key, &entry.tag_hash, last_token)\n            })\n")]),
 ("loop-skip", "bug", ["P28"], [(ES, Z, "        for byte in self.0.iter_mut().skip(1) {\n            byte.zeroize();\n        }\n")]),
 ("loop-take", "bug", ["P28"], [(ES, Z, "        for byte in &mut self.0[..8] {\n            byte.zeroize();\n        }\n")]),
 ("loop-break", "bug", ["P28"], [(ES, Z, "        for byte in self.0.iter_mut() {\n            if *byte == 0 {\n                break;\n            }\n            byte.zeroize();\n        }\n")]),
 # --- refactorings
 ("ok-direct", "ref", [], [(ES, DROP, "    fn drop(&mut self) {\n        self.0.zeroize();\n    }\n")]),
 ("ok-slice", "ref", [], [(ES, Z, "        self.0.as_mut_slice().zeroize();\n")]),
 ("ok-loop", "ref", [], [(ES, Z, "        for byte in self.0.iter_mut() {\n            byte.zeroize();\n        }\n")]),
 ("ok-len", "ref", [], [(IX, ADD, ADD + "        trace!(\"add: key length: {}\", key.as_bytes().len());\n")]),
 ("ok-help", "ref", [], [(IX, ADD, ADD + "        trace_bytes(\"key\", key.as_bytes());\n"), (IX, IMPL, HELPOK)]),
 ("ok-derive", "ref", [], [(IX, SEARCH, "        for (s, k) in seed.as_mut().iter_mut().zip(key.as_bytes()) {\n            *s = *k;\n        }\n        let key = self.findex_graph.derive_keys(&seed);\n\n        let graph")]),
 ("ok-dropped", "ref", [], [(IX, SEARCH, SEARCH.replace("\n\n        let graph", "\n        drop(seed);\n\n        let graph"))]),
]
