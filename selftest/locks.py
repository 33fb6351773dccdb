"""Locks (P27)."""
ED = "src/edx/mod.rs"
IX = "src/index/mod.rs"
MM = "src/findex_mm/mm.rs"
MC = "src/findex_mm/compact.rs"
RNG = '&mut *rng.lock().expect("could not lock mutex")'
CT = "        self.chain_table.insert(encrypted_links).await?;\n\n        Ok(new_tags)\n"
FOR = "        for (tag, links) in chain_additions {\n"
PREP = """                    self.chain_table.prepare(
                        &mut *rng.lock().expect("could not lock mutex"),
                        &chain_key,
                        link.0,
                    )?,
"""
PREP2 = PREP.replace(RNG, "&mut *guard")
GUARD = '        let mut guard = rng.lock().expect("could not lock mutex");\n'
WH = "        while !chain_additions.is_empty() {\n            let mut new_entries"
SEED = '.gen_seed(&mut *rng.lock().expect("could not lock mutex")),\n                        tag_hash'
PE = """                    self.entry_table.prepare(
                        &mut *rng.lock().expect("could not lock mutex"),
                        key,
"""
ALL = '            let edx = &mut self.lock().expect("could not lock mutex");\n'
DEL = "            for token in &*items {\n                edx.remove(token);\n            }\n"
ANY = "            if items.keys().any(|token| edx.contains_key(token)) {\n"
FE = """                        self.lock()
                            .expect("couldn't lock the table")
                            .get(&token)
                            .cloned()
                            .map(|v| (token, v))
"""
STEP2 = '            let rng = &mut *rng.lock().expect("could not lock mutex");\n            for (token, entry) in continuation.entries {\n'
BLOCK = "        {\n" + STEP2
NL = "        let mut new_links = HashMap::with_capacity(remaining_associations.len());\n"
L1 = '            let rng = &mut *rng.lock().expect("could not lock mutex");\n            let mut new_entry'
SEL = '        let mut rng = self.rng.lock().expect("could not lock mutex");\n        let mut res'
M = [
 # --- bugs
 ("across-insert", "bug", ["P27"], [(MM, FOR, GUARD + FOR), (MM, PREP, PREP2)]),
 ("across-upsert", "bug", ["P27"], [(MM, "            let mut new_entries = HashMap::with_capacity(chain_additions.len());\n", '            let mut new_entries = HashMap::with_capacity(chain_additions.len());\n            let mut guard = rng.lock().expect("could not lock mutex");\n'),
    (MM, PE, PE.replace(RNG, "&mut *guard")), (MM, ".gen_seed(" + RNG + ")", ".gen_seed(&mut *guard)")]),
 ("twice-compact", "bug", ["P27"], [(MC, NL, NL + '        let mut seeds_rng = rng.lock().expect("could not lock mutex");\n'), (MC, "Entry::new(self.chain_table.gen_seed(rng),", "Entry::new(self.chain_table.gen_seed(&mut *seeds_rng),")]),
 ("twice-seed", "bug", ["P27"], [(MM, "                let mut entry = if let Some(ciphertext)", '                let mut guard = rng.lock().expect("could not lock mutex");\n                let mut entry = if let Some(ciphertext)'), (MM, PE, PE.replace(RNG, "&mut *guard"))]),
 ("across-compact", "bug", ["P27"], [(MC, BLOCK, "        let mut guard = rng.lock().expect(\"could not lock mutex\");\n        {\n" + STEP2.replace('&mut *rng.lock().expect("could not lock mutex")', "&mut *guard"))]),
 ("db-len", "bug", ["P27"], [(ED, DEL, DEL + "            debug_assert!(self.len() < usize::MAX);\n            if self.is_empty() {\n                edx.shrink_to_fit();\n            }\n")]),
 ("db-fetch", "bug", ["P27"], [(ED, ANY, "            let used = self.dump_tokens().await?;\n            if items.keys().any(|token| used.contains(token)) {\n")]),
 ("if-let", "bug", ["P27"], [(ED, FE, """                        if let Some(v) = self.lock().expect("couldn't lock the table").get(&token).cloned() {
                            Some((token, v))
                        } else {
                            self.lock().expect("couldn't lock the table").shrink_to_fit();
                            None
                        }
""")]),
 ("leak-guard", "bug", ["P27"], [(IX, SEL, '        let rng = Box::leak(Box::new(self.rng.lock().expect("could not lock mutex")));\n        let mut res')]),
 ("select-twice", "bug", ["P27"], [(IX, "            let index = (rng.next_u64() %", '            let index = (self.rng.lock().expect("could not lock mutex").next_u64() %')]),
 # --- refactorings
 ("ok-scope", "ref", [], [(MM, FOR, "        {\n" + GUARD + FOR), (MM, PREP, PREP2), (MM, "        self.chain_table.insert(encrypted_links).await?;\n\n        Ok(new_tags)\n", "        }\n        self.chain_table.insert(encrypted_links).await?;\n\n        Ok(new_tags)\n")]),
 ("ok-drop", "ref", [], [(MM, FOR, GUARD + FOR), (MM, PREP, PREP2), (MM, CT, "        drop(guard);\n" + CT)]),
 ("ok-snapshot", "ref", [], [(ED, """            Ok(TokenWithEncryptedValueList::from(
                tokens
                    .into_iter()""", """            let table = self.lock().expect("couldn't lock the table");
            Ok(TokenWithEncryptedValueList::from(
                tokens
                    .into_iter()"""), (ED, FE, "                        table.get(&token).cloned().map(|v| (token, v))\n")]),
 ("ok-iflet", "ref", [], [(ED, FE, """                        if let Some(v) = self.lock().expect("couldn't lock the table").get(&token).cloned() {
                            Some((token, v))
                        } else {
                            None
                        }
""")]),
 ("ok-match", "ref", [], [(IX, SEL, '        let mut rng = match self.rng.lock() {\n            Ok(rng) => rng,\n            Err(_) => panic!("could not lock mutex"),\n        };\n        let mut res')]),
]
