"""Further breakages of updates and compaction."""
MM = "src/findex_mm/mm.rs"
MC = "src/findex_mm/compact.rs"
M = [
 ("n-stale-chain", "bug", ["P18", "P04"], [(MM, "                chain.insert((*tag).clone(), (chain_key, chain_tokens));", "                chain.entry((*tag).clone()).or_insert((chain_key, chain_tokens));")]),
 ("n-seed-hoist", "bug", ["P13"], [(MM, "        while !chain_additions.is_empty() {\n            let mut new_entries", "        let new_seed = self.chain_table.gen_seed(&mut *rng.lock().expect(\"could not lock mutex\"));\n        while !chain_additions.is_empty() {\n            let mut new_entries"),
   (MM, "                        seed: self\n                            .chain_table\n                            .gen_seed(&mut *rng.lock().expect(\"could not lock mutex\")),\n", "                        seed: {\n                            let mut s = ChainTable::Seed::default();\n                            s.as_mut().copy_from_slice(new_seed.as_ref());\n                            s\n                        },\n")]),
 ("n-compact-seed-hoist", "bug", ["P13"], [(MC, "        let mut new_links = HashMap::with_capacity(remaining_associations.len());\n", "        let mut new_links = HashMap::with_capacity(remaining_associations.len());\n        let batch_seed = self.chain_table.gen_seed(&mut *rng.lock().expect(\"could not lock mutex\"));\n"),
   (MC, "                Entry::new(self.chain_table.gen_seed(rng), old_entry.tag_hash, None);", "                Entry::new(\n                    {\n                        let mut s = ChainTable::Seed::default();\n                        s.as_mut().copy_from_slice(batch_seed.as_ref());\n                        s\n                    },\n                    old_entry.tag_hash,\n                    None,\n                );")]),
 ("n-get-mapwhile", "bug", ["P09", "P18"], [(MM, "                .filter_map(|token| links.get(token))\n", "                .map_while(|token| links.get(token))\n")]),
 ("n-compact-mapwhile", "bug", ["P32"], [(MC, "                    .filter_map(|token| encrypted_links.get(token))\n", "                    .map_while(|token| encrypted_links.get(token))\n")]),
 ("n-old-links-kept", "bug", ["P07", "P33"], [(MC, "            .values()\n            .flat_map(|(_, chain_tokens)| chain_tokens)\n            .copied()\n            .collect();\n\n        debug!(\"Step 2", "            .values()\n            .filter(|(_, chain_tokens)| chain_tokens.len() < 1 << 12)\n            .flat_map(|(_, chain_tokens)| chain_tokens)\n            .copied()\n            .collect();\n\n        debug!(\"Step 2")]),
 ("n-old-minus-new", "bug", ["P33"], [(MC, "            self.entry_table.delete(old_entries).await?;", "            if old_entries.len() <= 1 << 16 {\n                self.entry_table.delete(old_entries).await?;\n            }")]),
 ("n-rollback-partial", "bug", ["P08"], [(MC, "            // there before this operation and should not be deleted.\n            self.chain_table.delete(new_links_tokens).await?;", "            // there before this operation and should not be deleted.\n            if !old_entries.is_empty() && remaining_entry_tokens.len() == old_entries.len() {\n                self.chain_table.delete(new_links_tokens).await?;\n            }")]),
 ("n-zip-rev", "bug", ["P18"], [(MC, "            for (token, link) in chain_tokens.into_iter().zip(chain_links) {", "            for (token, link) in chain_tokens.into_iter().rev().zip(chain_links) {")]),
 ("n-zip-rev-insert", "bug", ["P18"], [(MM, "            for (token, link) in tokens.into_iter().zip(links.into_iter()) {", "            for (token, link) in tokens.into_iter().zip(links.into_iter().rev()) {")]),
 ("n-first-token", "bug", ["P19"], [(MC, "            new_entry.chain_token = chain_tokens.last().copied();", "            new_entry.chain_token = chain_tokens.first().copied();")]),
 ("n-tok-label", "bug", ["P17"], [(MC, "                            .tokenize(new_key, &entry.tag_hash, Some(new_label)),", "                            .tokenize(new_key, &entry.tag_hash, if entry.chain_token.is_some() { Some(new_label) } else { None }),")]),
 ("n-drop-values", "bug", ["P32", "P33"], [(MC, "                &chain_values\n                    .into_iter()\n                    .map(|v| (Operation::Addition, v))", "                &chain_values\n                    .into_iter()\n                    .filter(|v| !v.is_empty())\n                    .map(|v| (Operation::Addition, v))")]),
 ("n-target-empty", "bug", ["P33"], [(MC, "                    .map_or(true, |associated_values| !associated_values.is_empty())", "                    .map_or(true, |associated_values| associated_values.iter().any(|v| !v.is_empty()))")]),
 ("n-get-break", "bug", ["P09"], [(MM, """            let chain_links = chain_tokens
                .iter()
                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;
""", """            let mut chain_links = Vec::new();
            for token in &chain_tokens {
                let Some(ciphertext) = links.get(token) else { break };
                chain_links.push(Link(self.chain_table.resolve(&chain_key, ciphertext)?));
            }
""")]),
 ("n-get-continue", "ref", [], [(MM, """            let chain_links = chain_tokens
                .iter()
                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;
""", """            let mut chain_links = Vec::new();
            for token in &chain_tokens {
                let Some(ciphertext) = links.get(token) else { continue };
                chain_links.push(Link(self.chain_table.resolve(&chain_key, ciphertext)?));
            }
""")]),
 ("n-get-take", "bug", ["P09"], [(MM, """                .filter_map(|token| links.get(token))
""", """                .filter_map(|token| links.get(token))
                .take(1 << 20)
""")]),
 ("n-zip-skip", "bug", ["P18"], [(MM, "            for (token, link) in tokens.into_iter().zip(links.into_iter()) {", "            let n = tokens.len().saturating_sub(1 << 20);\n            for (token, link) in tokens.into_iter().skip(n).zip(links.into_iter()) {")]),
]
