"""Reported new keywords (P30)."""
MM = "src/findex_mm/mm.rs"
GR = "src/findex_graph/graph.rs"
IX = "src/index/mod.rs"
NI = "                    new_tags.insert((*tag).clone());\n"
RET = "            new_tags.retain(|tag| !chain_additions.contains_key(tag));\n"
GET = """                let mut entry = if let Some(ciphertext) = encrypted_entries.get(token) {
                    Entry::<ChainTable>::from(self.entry_table.resolve(key, ciphertext)?)
                } else {
"""
DECL = "        let mut new_tags = HashSet::with_capacity(chain_additions.len());\n"
WH = "        while !chain_additions.is_empty() {\n            let mut new_entries = HashMap::with_capacity(chain_additions.len());\n"
INSG = "        self.findex_mm.insert(rng, key, items, label).await\n"
CT = "        self.chain_table.insert(encrypted_links).await?;\n\n        Ok(new_tags)\n"
ADD = """                    .push((Operation::Addition, value.clone()));
            }
        }

        Ok(Keywords::from(
            self.findex_graph
                .insert(self.rng.clone(), &key, modifications, label)
                .await?,
        ))
"""
RETCH = "            chain_additions.retain(|_, (k, _, _)| encrypted_entries.contains_key(k));\n"
M = [
 # --- bugs
 ("no-retain", "bug", ["P30"], [(MM, RET, "")]),
 ("retain-before", "bug", ["P30"], [(MM, RETCH + RET, RET + RETCH)]),
 ("all-new", "bug", ["P30"], [(MM, NI, ""), (MM, GET, GET.replace("let mut entry", "new_tags.insert((*tag).clone());\n                let mut entry"))]),
 ("old-new", "bug", ["P30"], [(MM, NI, ""), (MM, GET, GET.replace(") {\n", ") {\n                    new_tags.insert((*tag).clone());\n", 1))]),
 ("reset", "bug", ["P30"], [(MM, WH, WH + "            new_tags = HashSet::new();\n")]),
 ("reset2", "bug", ["P30"], [(MM, RET, RET.replace("!chain_additions", "encrypted_entries.is_empty() && !chain_additions"))]),
 ("retain-neg", "bug", ["P30"], [(MM, RET, RET.replace("!chain", "chain"))]),
 ("some", "bug", ["P30"], [(MM, NI, "                    if *n_additions == 1 {\n                        new_tags.insert((*tag).clone());\n                    }\n")]),
 ("empty-first", "bug", ["P30"], [(MM, NI, "                    if !encrypted_entries.is_empty() {\n                        new_tags.insert((*tag).clone());\n                    }\n")]),
 ("graph-empty", "bug", ["P30"], [(GR, INSG, "        self.findex_mm.insert(rng, key, items, label).await?;\n        Ok(HashSet::new())\n")]),
 ("graph-filter", "bug", ["P30"], [(GR, INSG, "        let r = self.findex_mm.insert(rng, key, items, label).await?;\n        Ok(r.into_iter().filter(|t| t.as_ref().len() > 1).collect())\n")]),
 ("index-all", "bug", ["P30"], [(IX, ADD, """                    .push((Operation::Addition, value.clone()));
            }
        }
        let all = modifications.keys().cloned().collect::<HashSet<_>>();
        let new = self.findex_graph
                .insert(self.rng.clone(), &key, modifications, label)
                .await?;
        Ok(Keywords::from(if new.is_empty() { new } else { all }))
""")]),
 ("mm-chain", "bug", ["P30"], [(MM, CT, "        let n = encrypted_links.len();\n        self.chain_table.insert(encrypted_links).await?;\n\n        Ok(if n > 1 { new_tags } else { HashSet::new() })\n")]),
 # --- refactorings
 ("r-remove", "ref", [], [(MM, RET, ""), (MM, GET, GET.replace(") {\n", ") {\n                    new_tags.remove(*tag);\n", 1))]),
 ("r-after", "ref", [], [(MM, NI, "                    created.insert((*tag).clone());\n"),
    (MM, WH, WH + "            let mut created = HashSet::new();\n"),
    (MM, RET, "            for tag in created {\n                if !chain_additions.contains_key(&tag) {\n                    new_tags.insert(tag);\n                }\n            }\n")]),
 ("r-extend", "ref", [], [(MM, NI, "                    created.push((*tag).clone());\n"),
    (MM, WH, WH + "            let mut created = Vec::new();\n"),
    (MM, RET, "            new_tags.extend(created.into_iter().filter(|tag| !chain_additions.contains_key(tag)));\n")]),
 ("r-token", "ref", [], [(MM, RETCH + RET, "            new_tags.retain(|tag| match chain_additions.get(tag) { Some((k, _, _)) => !encrypted_entries.contains_key(k), None => true });\n" + RETCH)]),
 ("r-isnew", "ref", [], [(MM, NI, ""), (MM, GET, GET.replace("let mut entry", "if !encrypted_entries.contains_key(token) {\n                    new_tags.insert((*tag).clone());\n                }\n                let mut entry"))]),
 ("r-collect", "ref", [], [(MM, RET, "            new_tags = new_tags.into_iter().filter(|tag| !chain_additions.contains_key(tag)).collect();\n")]),
 ("r-graph", "ref", [], [(GR, INSG, "        let new = self.findex_mm.insert(rng, key, items, label).await?;\n        let mut res = HashSet::with_capacity(new.len());\n        for tag in new {\n            res.insert(tag);\n        }\n        Ok(res)\n")]),
 ("r-mm", "ref", [], [(MM, CT, "        match self.chain_table.insert(encrypted_links).await {\n            Ok(()) => Ok(new_tags),\n            Err(e) => Err(e),\n        }\n")]),
]
