"""No panic on bad data (P24)."""
MM = "src/findex_mm/mm.rs"
MC = "src/findex_mm/compact.rs"
ES = "src/edx/structs.rs"
ED = "src/edx/mod.rs"
GS = "src/findex_graph/structs.rs"
LEN = ES and """        if value.len() != Self::LENGTH {
"""
EMPTY = """        if value.is_empty() {
            return Err(Self::Error::Conversion(
                "indexed values should be at least one byte long".to_string(),
            ));
        }
"""
HM = "            let mut table = HashMap::new();\n"
TOK = """        <[u8; TOKEN_LENGTH]>::try_from(value)
            .map_err(|_| {
                CoreError::Conversion(format!(
                    "cannot create token from {} bytes, {TOKEN_LENGTH} expected",
                    value.len(),
                ))
            })
            .map(Into::into)
"""
FM = "                    .filter_map(|token| encrypted_links.get(token))\n"
OLD = """            let old_entry = continuation.entries.get_mut(&entry_token).ok_or_else(|| {
                Error::<UserError>::Crypto(format!(
                    "{entry_token:?} not found in entries from the continuation data"
                ))
            })?;
"""
FM2 = "                .filter_map(|token| links.get(token))\n"
FT = ".filter_map(|(token, entry)| tokens.get(&token).cloned().map(|tag| (tag, entry)))"
M = [
 # --- bugs
 ("no-len", "bug", ["P24"], [(ES, LEN, LEN.replace("!= Self::LENGTH", "> Self::LENGTH"))]),
 ("min-len", "bug", ["P24"], [(ES, LEN, LEN.replace("!= Self::LENGTH", "< NONCE_LENGTH"))]),
 ("tok-copy", "bug", ["P24"], [(ES, TOK, "        let mut t = [0; TOKEN_LENGTH];\n        t.copy_from_slice(value);\n        Ok(t.into())\n")]),
 ("tok-slice", "bug", ["P24"], [(ES, TOK, "        if value.is_empty() {\n            return Err(CoreError::Conversion(String::new()));\n        }\n        let mut t = [0; TOKEN_LENGTH];\n        t.copy_from_slice(&value[..TOKEN_LENGTH]);\n        Ok(t.into())\n")]),
 ("capacity", "bug", ["P24"], [(ED, HM, HM.replace("new()", "with_capacity(n)"))]),
 ("capacity-partial", "bug", ["P24"], [(ED, HM, HM.replace("new()", "with_capacity(n / 2 + 1)"))]),
 ("no-empty", "bug", ["P24"], [(GS, EMPTY, "")]),
 ("data-1", "bug", ["P24"], [(GS, "Self::Data(value[1..]", "Self::Data(value[2..]")]),
 ("missing-link", "bug", ["P24"], [(MC, FM, "                    .map(|token| &encrypted_links[token])\n")]),
 ("missing-link-unwrap", "bug", ["P24"], [(MC, FM, "                    .map(|token| encrypted_links.get(token).expect(\"chain\"))\n")]),
 ("missing-link-search", "bug", ["P24"], [(MM, FM2, "                .map(|token| &links[token])\n")]),
 ("row-tag", "bug", ["P24"], [(MM, FT, ".map(|(token, entry)| (tokens[&token].clone(), entry))")]),
 ("resolve-unwrap", "bug", ["P24"], [(MM, "Entry::<ChainTable>::from(self.entry_table.resolve(key, ciphertext)?)", "Entry::<ChainTable>::from(self.entry_table.resolve(key, ciphertext).unwrap())")]),
 ("dup-assert", "bug", ["P24"], [(MC, """                let old_v = acc.insert(k, v);
                if old_v.is_some() {
                    Err(Error::<UserError>::Crypto(
                        "Entry Table keys are not unique".to_string(),
                    ))
                } else {
                    Ok(acc)
                }
            },
        )?;

        let indexed_chains""", """                let old_v = acc.insert(k, v);
                assert!(old_v.is_none());
                Ok::<_, Error<UserError>>(acc)
            },
        )?;

        let indexed_chains""")]),
 ("nlinks", "bug", ["P24"], [(MC, "        let n_links = encrypted_links.len();\n", "        let n_links = encrypted_links.len();\n        let _n_missing = chain_metadata.values().map(|(_, t)| t.len()).sum::<usize>() - n_links;\n")]),
 # --- refactorings
 ("ok-len-min-max", "ref", [], [(ES, LEN, "        let n = value.len();\n        if n < Self::LENGTH || Self::LENGTH < n {\n")]),
 ("ok-tok-check", "ref", [], [(ES, TOK, "        if value.len() != TOKEN_LENGTH {\n            return Err(CoreError::Conversion(String::new()));\n        }\n        let mut t = [0; TOKEN_LENGTH];\n        t.copy_from_slice(value);\n        Ok(t.into())\n")]),
 ("ok-cap", "ref", [], [(ED, HM, HM.replace("new()", "with_capacity(n.min(1024))"))]),
 ("ok-first", "ref", [], [(GS, EMPTY, "        let Some(_first) = value.first() else {\n            return Err(Self::Error::Conversion(\"empty\".to_string()));\n        };\n")]),
 ("ok-split", "ref", [], [(GS, "Ok(Self::Data(value[1..].to_vec().into()))", "{\n                let (_, v) = value.split_at(1);\n                Ok(Self::Data(v.to_vec().into()))\n            }")]),
 ("ok-contains", "ref", [], [(MC, FM, "                    .filter(|token| encrypted_links.contains_key(*token))\n                    .map(|token| &encrypted_links[token])\n")]),
 ("ok-match", "ref", [], [(MC, OLD, """            let old_entry = match continuation.entries.get_mut(&entry_token) {
                Some(e) => e,
                None => return Err(Error::<UserError>::Crypto("missing entry".to_string())),
            };
""")]),
]
