"""Ambiguous rows (P21)."""
MM = "src/findex_mm/mm.rs"
CO = "src/findex_mm/compact.rs"
FOLD = """        let mut encrypted_entries = encrypted_entries.into_iter().try_fold(
            HashMap::with_capacity(chain_additions.len()),
            |mut acc, (k, v)| {
                let old_value = acc.insert(k, v);
                if old_value.is_some() {
                    Err(CoreError::Crypto(
                        "multiple Entry Table values are not allowed in upsert mode".to_string(),
                    ))
                } else {
                    Ok(acc)
                }
            },
        )?;
"""
CE = """        let n_entries = entries.len();
        let entries = entries.into_iter().try_fold(
            HashMap::with_capacity(n_entries),
            |mut acc, (k, v)| {
                let old_v = acc.insert(k, v);
                if old_v.is_some() {
                    Err(Error::<UserError>::Crypto(
                        "Entry Table keys are not unique".to_string(),
                    ))
                } else {
                    Ok(acc)
                }
            },
        )?;
"""
CL = CE.replace("n_entries", "n_links").replace("let entries", "let encrypted_links").replace("= entries.", "= encrypted_links.")
NE = """                    let previous = new_entries.insert(
                        self.entry_table
                            .tokenize(new_key, &entry.tag_hash, Some(new_label)),
                        self.entry_table.prepare(rng, new_key, entry.into())?,
                    );
                    if previous.is_some() {
                        return Err(Error::Crypto(
                            "several entries would be compacted into the same one".to_string(),
                        ));
                    }
"""
INS = """self.entry_table
                            .tokenize(new_key, &entry.tag_hash, Some(new_label)),
                        self.entry_table.prepare(rng, new_key, entry.into())?,
"""
M = [
 ("fold-loop", "ref", [], [(MM, FOLD, """        let mut rows = HashMap::new();
        for (k, v) in encrypted_entries {
            if rows.insert(k, v).is_some() {
                return Err(CoreError::Crypto("multiple values".to_string()).into());
            }
        }
        let mut encrypted_entries = rows;
""")]),
 ("fold-contains", "ref", [], [(MM, FOLD, """        let mut rows = HashMap::new();
        for (k, v) in encrypted_entries {
            if rows.contains_key(&k) {
                return Err(CoreError::Crypto("multiple values".to_string()).into());
            }
            rows.insert(k, v);
        }
        let mut encrypted_entries = rows;
""")]),
 ("fold-entry", "ref", [], [(MM, FOLD, """        let mut rows = HashMap::new();
        for (k, v) in encrypted_entries {
            match rows.entry(k) {
                std::collections::hash_map::Entry::Vacant(e) => {
                    e.insert(v);
                }
                std::collections::hash_map::Entry::Occupied(_) => {
                    return Err(CoreError::Crypto("multiple values".to_string()).into());
                }
            }
        }
        let mut encrypted_entries = rows;
""")]),
 ("fold-len", "ref", [], [(MM, FOLD, """        let n = encrypted_entries.len();
        let mut encrypted_entries = encrypted_entries.into_iter().collect::<HashMap<_, _>>();
        if encrypted_entries.len() != n {
            return Err(CoreError::Crypto("multiple values".to_string()).into());
        }
""")]),
 ("fold-seen", "ref", [], [(MM, FOLD, """        let mut seen = HashSet::new();
        for (k, _) in &encrypted_entries {
            if !seen.insert(*k) {
                return Err(CoreError::Crypto("multiple values".to_string()).into());
            }
        }
        let mut encrypted_entries = encrypted_entries.into_iter().collect::<HashMap<_, _>>();
""")]),
 ("fold-helper", "ref", [], [(MM, FOLD, """        let mut encrypted_entries = Self::unique(encrypted_entries)?;
"""), (MM, "    /// Commits the given chain modifications", """    fn unique<V>(rows: Vec<(Token, V)>) -> Result<HashMap<Token, V>, CoreError> {
        let mut res = HashMap::with_capacity(rows.len());
        for (token, value) in rows {
            if res.insert(token, value).is_some() {
                return Err(CoreError::Crypto("multiple values".to_string()));
            }
        }
        Ok(res)
    }

    /// Commits the given chain modifications""")]),
 ("ce-len", "ref", [], [(CO, CE, """        let n_entries = entries.len();
        let entries = entries.into_iter().collect::<HashMap<_, _>>();
        if entries.len() < n_entries {
            return Err(Error::<UserError>::Crypto("not unique".to_string()));
        }
""")]),
 ("cl-loop", "ref", [], [(CO, CL, """        let mut rows = HashMap::with_capacity(encrypted_links.len());
        for (k, v) in encrypted_links {
            if rows.insert(k, v).is_some() {
                return Err(Error::<UserError>::Crypto("not unique".to_string()));
            }
        }
        let encrypted_links = rows;
""")]),
 ("ne-contains", "ref", [], [(CO, NE, """                    let new_token = self
                        .entry_table
                        .tokenize(new_key, &entry.tag_hash, Some(new_label));
                    if new_entries.contains_key(&new_token) {
                        return Err(Error::Crypto("several entries".to_string()));
                    }
                    new_entries.insert(
                        new_token,
                        self.entry_table.prepare(rng, new_key, entry.into())?,
                    );
""")]),
 ("ne-len", "ref", [], [(CO, NE, """                    new_entries.insert(
                        """ + INS + """                    );
"""), (CO, "        let new_links_tokens = new_links.keys()", """        if new_entries.len() != remaining_entry_tokens.len() {
            return Err(Error::Crypto("several entries".to_string()));
        }
        let new_links_tokens = new_links.keys()""")]),
 # ---- bugs
 ("fold-collect", "bug", ["P21"], [(MM, FOLD, "        let mut encrypted_entries = encrypted_entries.into_iter().collect::<HashMap<_, _>>();\n")]),
 ("fold-first", "bug", ["P21"], [(MM, FOLD, """        let mut rows = HashMap::new();
        for (k, v) in encrypted_entries {
            if !rows.contains_key(&k) {
                rows.insert(k, v);
            }
        }
        let mut encrypted_entries = rows;
""")]),
 ("fold-or-insert", "bug", ["P21"], [(MM, FOLD, """        let mut rows = HashMap::new();
        for (k, v) in encrypted_entries {
            rows.entry(k).or_insert(v);
        }
        let mut encrypted_entries = rows;
""")]),
 ("fold-many", "bug", ["P21"], [(MM, FOLD, FOLD.replace("if old_value.is_some() {", "if old_value.is_some() && acc.len() > 1 {"))]),
 ("fold-log", "bug", ["P21"], [(MM, FOLD, """        let mut rows = HashMap::new();
        for (k, v) in encrypted_entries {
            if rows.insert(k, v).is_some() {
                debug_assert!(true);
            }
        }
        let mut encrypted_entries = rows;
""")]),
 ("fold-len-bug", "bug", ["P21"], [(MM, FOLD, """        let n = chain_additions.len();
        let mut encrypted_entries = encrypted_entries.into_iter().collect::<HashMap<_, _>>();
        if encrypted_entries.len() > n {
            return Err(CoreError::Crypto("multiple values".to_string()).into());
        }
""")]),
 ("ce-collect", "bug", ["P21"], [(CO, CE, "        let entries = entries.into_iter().collect::<HashMap<_, _>>();\n")]),
 ("cl-collect", "bug", ["P21"], [(CO, CL, "        let encrypted_links = encrypted_links.into_iter().collect::<HashMap<_, _>>();\n")]),
 ("ce-old", "bug", ["P21"], [(CO, CE, CE.replace("if old_v.is_some() {", "if old_v.is_some_and(|v: Entry<ChainTable>| v.chain_token.is_none()) {"))]),
 ("ne-noerr", "bug", ["P21"], [(CO, NE, """                    new_entries.insert(
                        """ + INS + """                    );
""")]),
]
