"""The in-memory backend (P25, P26)."""
EM = "src/edx/mod.rs"
UP = """            let mut res = HashMap::new();
            for (token, new_ciphertext) in new_values {
                let old_ciphertext = old_values.get(&token);
                let edx_ciphertext = edx.get(&token);

                if old_ciphertext == edx_ciphertext {
                    edx.insert(token, new_ciphertext.clone());
                } else {
                    res.insert(
                        token,
                        edx_ciphertext
                            .cloned()
                            .expect("above check ensures this cannot happen"),
                    );
                }
            }

            Ok(TokenToEncryptedValueMap::from(res))
"""
CHK = """            if old_values.keys().any(|token| !edx.contains_key(token)) {
                return Err(InMemoryDbError(format!(
                    "missing EDX tokens {:?}",
                    old_values
                        .keys()
                        .filter(|token| !edx.contains_key(*token))
                        .collect::<Vec<_>>()
                )));
            }
"""
UL = "            let edx = &mut self.lock().expect(\"couldn't lock the table\");\n            // Ensures"
INS = """            if items.keys().any(|token| edx.contains_key(token)) {
                return Err(InMemoryDbError(format!(
                    "cannot insert value for used tokens ({:?})",
                    items
                        .keys()
                        .filter(|token| edx.contains_key(*token))
                        .collect::<Vec<_>>()
                )));
            }

            edx.extend(items);
"""
DEL = """            for token in &*items {
                edx.remove(token);
            }
"""
FET = """            Ok(TokenWithEncryptedValueList::from(
                tokens
                    .into_iter()
                    .filter_map(|token| {
                        self.lock()
                            .expect("couldn't lock the table")
                            .get(&token)
                            .cloned()
                            .map(|v| (token, v))
                    })
                    .collect::<Vec<_>>(),
            ))
"""
DMP = """            Ok(self
                .lock()
                .expect("could not lock table")
                .keys()
                .copied()
                .collect())
"""
def up(b): return [(EM, UP, b)]
M = [
 # ---- refactorings
 ("up-match", "ref", [], up("""            let mut res = HashMap::new();
            for (token, new_ciphertext) in new_values {
                match (old_values.get(&token), edx.get(&token)) {
                    (None, None) => {
                        edx.insert(token, new_ciphertext);
                    }
                    (Some(old), Some(cur)) if old == cur => {
                        edx.insert(token, new_ciphertext);
                    }
                    (_, Some(cur)) => {
                        res.insert(token, cur.clone());
                    }
                    (Some(_), None) => unreachable!("checked above"),
                }
            }

            Ok(TokenToEncryptedValueMap::from(res))
""")),
 ("up-iflet", "ref", [], up("""            let mut res = HashMap::new();
            for (token, new_ciphertext) in new_values {
                if let Some(cur) = edx.get(&token) {
                    if old_values.get(&token) != Some(cur) {
                        res.insert(token, cur.clone());
                        continue;
                    }
                }
                edx.insert(token, new_ciphertext);
            }

            Ok(TokenToEncryptedValueMap::from(res))
""")),
 ("up-two-phases", "ref", [], up("""            let mut res = HashMap::new();
            let mut todo = Vec::new();
            for (token, new_ciphertext) in new_values {
                let old_ciphertext = old_values.get(&token);
                let edx_ciphertext = edx.get(&token);
                if old_ciphertext == edx_ciphertext {
                    todo.push((token, new_ciphertext));
                } else {
                    res.insert(token, edx_ciphertext.cloned().expect("checked"));
                }
            }
            for (token, value) in todo {
                edx.insert(token, value);
            }

            Ok(TokenToEncryptedValueMap::from(res))
""")),
 ("up-extend", "ref", [], up("""            let mut res = TokenToEncryptedValueMap::default();
            let mut todo = HashMap::with_capacity(new_values.len());
            for (token, new_ciphertext) in new_values {
                let old_ciphertext = old_values.get(&token);
                let edx_ciphertext = edx.get(&token);
                if old_ciphertext != edx_ciphertext {
                    res.insert(token, edx_ciphertext.expect("checked").clone());
                } else {
                    todo.insert(token, new_ciphertext);
                }
            }
            edx.extend(todo);

            Ok(res)
""")),
 ("up-entry", "ref", [], up("""            let mut res = HashMap::new();
            for (token, new_ciphertext) in new_values {
                match edx.entry(token) {
                    std::collections::hash_map::Entry::Vacant(e) => {
                        e.insert(new_ciphertext);
                    }
                    std::collections::hash_map::Entry::Occupied(mut e) => {
                        if old_values.get(&token) == Some(e.get()) {
                            e.insert(new_ciphertext);
                        } else {
                            res.insert(token, e.get().clone());
                        }
                    }
                }
            }

            Ok(TokenToEncryptedValueMap::from(res))
""")),
 ("up-getmut", "ref", [], up("""            let mut res = HashMap::new();
            for (token, new_ciphertext) in new_values {
                if let Some(cur) = edx.get_mut(&token) {
                    if old_values.get(&token) == Some(&*cur) {
                        *cur = new_ciphertext;
                    } else {
                        res.insert(token, cur.clone());
                    }
                } else {
                    edx.insert(token, new_ciphertext);
                }
            }

            Ok(TokenToEncryptedValueMap::from(res))
""")),
 ("up-partition", "ref", [], up("""            let (res, todo): (Vec<_>, Vec<_>) = new_values
                .into_iter()
                .partition(|(token, _)| old_values.get(token) != edx.get(token));
            let res = res
                .into_iter()
                .map(|(token, _)| (token, edx[&token].clone()))
                .collect::<HashMap<_, _>>();
            edx.extend(todo);
            Ok(TokenToEncryptedValueMap::from(res))
""")),
 ("up-helper", "ref", [], [(EM, UP, """            let mut res = HashMap::new();
            for (token, new_ciphertext) in new_values {
                if let Some(rejected) =
                    swap(edx, token, old_values.get(&token), new_ciphertext)
                {
                    res.insert(token, rejected);
                }
            }
            Ok(TokenToEncryptedValueMap::from(res))
"""), (EM, "    #[derive(Debug)]\n    pub struct InMemoryDbError(String);\n", """    #[derive(Debug)]
    pub struct InMemoryDbError(String);

    fn swap<const L: usize>(
        edx: &mut TokenToEncryptedValueMap<L>,
        token: Token,
        old: Option<&EncryptedValue<L>>,
        new: EncryptedValue<L>,
    ) -> Option<EncryptedValue<L>> {
        let cur = edx.get(&token).cloned();
        if cur.as_ref() == old {
            edx.insert(token, new);
            None
        } else {
            cur
        }
    }
""")]),
 ("chk-loop", "ref", [], [(EM, CHK, """            for token in old_values.keys() {
                if !edx.contains_key(token) {
                    return Err(InMemoryDbError(format!("missing EDX token {token:?}")));
                }
            }
""")]),
 ("chk-all", "ref", [], [(EM, CHK, """            if !old_values.iter().all(|(token, _)| edx.get(token).is_some()) {
                return Err(InMemoryDbError("missing EDX tokens".to_string()));
            }
""")]),
 ("chk-collect", "ref", [], [(EM, CHK, """            let missing = old_values
                .keys()
                .filter(|token| !edx.contains_key(*token))
                .collect::<Vec<_>>();
            if !missing.is_empty() {
                return Err(InMemoryDbError(format!("missing EDX tokens {missing:?}")));
            }
""")]),
 ("ins-loop", "ref", [], [(EM, INS, """            for token in items.keys() {
                if edx.contains_key(token) {
                    return Err(InMemoryDbError(format!("used token {token:?}")));
                }
            }
            for (token, value) in items {
                edx.insert(token, value);
            }
""")]),
 ("ins-collect", "ref", [], [(EM, INS, """            let used = items.keys().filter(|t| edx.contains_key(*t)).collect::<Vec<_>>();
            if used.is_empty() {
                edx.extend(items);
            } else {
                return Err(InMemoryDbError(format!("used tokens {used:?}")));
            }
""")]),
 ("ins-all", "ref", [], [(EM, INS, """            if !items.keys().all(|token| !edx.contains_key(token)) {
                return Err(InMemoryDbError("used tokens".to_string()));
            }
            items.into_iter().for_each(|(k, v)| {
                edx.insert(k, v);
            });
""")]),
 ("del-retain", "ref", [], [(EM, DEL, "            edx.retain(|token, _| !items.contains(token));\n")]),
 ("del-foreach", "ref", [], [(EM, DEL, "            items.iter().for_each(|token| {\n                edx.remove(token);\n            });\n")]),
 ("del-into", "ref", [], [(EM, DEL, "            for token in items {\n                if edx.contains_key(&token) {\n                    edx.remove(&token);\n                }\n            }\n")]),
 ("fet-onelock", "ref", [], [(EM, FET, """            let edx = self.lock().expect("couldn't lock the table");
            let mut res = Vec::with_capacity(tokens.len());
            for token in tokens {
                if let Some(v) = edx.get(&token) {
                    res.push((token, v.clone()));
                }
            }
            Ok(TokenWithEncryptedValueList::from(res))
""")]),
 ("fet-rows", "ref", [], [(EM, FET, """            let edx = self.lock().expect("couldn't lock the table");
            let res = edx
                .iter()
                .filter(|(token, _)| tokens.contains(token))
                .map(|(token, v)| (*token, v.clone()))
                .collect::<Vec<_>>();
            Ok(TokenWithEncryptedValueList::from(res))
""")]),
 ("fet-flatmap", "ref", [], [(EM, FET, """            let edx = self.lock().expect("couldn't lock the table");
            Ok(TokenWithEncryptedValueList::from(
                tokens
                    .iter()
                    .flat_map(|token| edx.get(token).map(|v| (*token, v.clone())))
                    .collect::<Vec<_>>(),
            ))
""")]),
 ("dmp-loop", "ref", [], [(EM, DMP, """            let edx = self.lock().expect("could not lock table");
            let mut res = std::collections::HashSet::new();
            for (k, _) in edx.iter() {
                res.insert(*k);
            }
            Ok(res.into_iter().collect())
""")]),
 # ---- bugs
 ("up-nochk", "bug", ["P25"], [(EM, CHK, "")]),
 ("up-nochk2", "bug", ["P25"], [(EM, CHK, ""), (EM, UP, UP.replace("""                    res.insert(
                        token,
                        edx_ciphertext
                            .cloned()
                            .expect("above check ensures this cannot happen"),
                    );
""", """                    if let Some(v) = edx_ciphertext {
                        res.insert(token, v.clone());
                    }
"""))]),
 ("up-partial", "bug", ["P25"], [(EM, CHK, ""), (EM, UP, UP.replace("""                    res.insert(
                        token,
                        edx_ciphertext
                            .cloned()
                            .expect("above check ensures this cannot happen"),
                    );
""", """                    let Some(v) = edx_ciphertext else {
                        return Err(InMemoryDbError("missing".to_string()));
                    };
                    res.insert(token, v.clone());
"""))]),
 ("up-resurrect", "bug", ["P25"], [(EM, CHK, ""), (EM, UP, UP.replace("""                if old_ciphertext == edx_ciphertext {
""", """                if old_ciphertext == edx_ciphertext || edx_ciphertext.is_none() {
"""))]),
 ("up-nover", "bug", ["P25"], up(UP.replace("if old_ciphertext == edx_ciphertext {", "if old_ciphertext.is_none() || old_ciphertext == edx_ciphertext {"))),
 ("up-report-old", "bug", ["P25"], up(UP.replace("""                        edx_ciphertext
                            .cloned()
                            .expect""", """                        old_ciphertext
                            .or(edx_ciphertext)
                            .cloned()
                            .expect"""))),
 ("up-report-new", "bug", ["P25"], up(UP.replace("""                        edx_ciphertext
                            .cloned()
                            .expect("above check ensures this cannot happen"),
""", """                        new_ciphertext,
"""))),
 ("up-relock", "bug", ["P25"], [(EM, UP, "            let edx = &mut self.lock().expect(\"couldn't lock the table\");\n" + UP), (EM, UL, UL.replace("&mut self", "self")),
    (EM, CHK, CHK + "            drop(edx);\n")]),
 ("up-ct-only", "bug", ["P25"], up(UP.replace("if old_ciphertext == edx_ciphertext {", "if old_ciphertext.map(|v| &v.ciphertext) == edx_ciphertext.map(|v| &v.ciphertext) {"))),
 ("up-silent", "bug", ["P25"], up(UP.replace("                } else {\n", "                } else if old_ciphertext.is_some() {\n"))),
 ("up-stop", "bug", ["P25"], up(UP.replace("""                    );
                }
""", """                    );
                    break;
                }
"""))),
 ("up-present-len", "bug", ["P25"], up(UP.replace("if old_ciphertext == edx_ciphertext {", "if old_ciphertext.is_some() == edx_ciphertext.is_some() {"))),
 ("up-allornothing", "bug", ["P25"], up("""            let mut res = HashMap::new();
            for (token, _) in new_values.iter() {
                if old_values.get(token) != edx.get(token) {
                    res.insert(*token, edx[token].clone());
                }
            }
            if res.is_empty() {
                edx.extend(new_values);
            }

            Ok(TokenToEncryptedValueMap::from(res))
""")),
 ("up-only-old", "bug", ["P25"], up(UP.replace("                let old_ciphertext = old", "                if !old_values.is_empty() && !old_values.contains_key(&token) {\n                    continue;\n                }\n                let old_ciphertext = old"))),
 ("ins-ignore", "bug", ["P26"], [(EM, INS, """            for (k, v) in items {
                edx.entry(k).or_insert(v);
            }
""")]),
 ("ins-replace", "bug", ["P26"], [(EM, INS, "            edx.extend(items);\n")]),
 ("ins-late", "bug", ["P26"], [(EM, INS, """            for (k, v) in items {
                if edx.contains_key(&k) {
                    return Err(InMemoryDbError("used token".to_string()));
                }
                edx.insert(k, v);
            }
""")]),
 ("ins-late2", "bug", ["P26"], [(EM, INS, """            for (k, v) in items {
                if edx.insert(k, v).is_some() {
                    return Err(InMemoryDbError("used token".to_string()));
                }
            }
""")]),
 ("ins-all-used", "bug", ["P26"], [(EM, INS, INS.replace("if items.keys().any(|token| edx.contains_key(token)) {", "if !items.is_empty() && items.keys().all(|token| edx.contains_key(token)) {"))]),
 ("ins-one", "bug", ["P26"], [(EM, INS, INS.replace("if items.keys().any(|token| edx.contains_key(token)) {", "if items.keys().take(1).any(|token| edx.contains_key(token)) {"))]),
 ("ins-relock", "bug", ["P26"], [(EM, INS, INS.replace("            edx.extend(items);", "            drop(edx);\n            self.lock().expect(\"lock\").extend(items);")),
   (EM, "            let edx = &mut self.lock().expect(\"couldn't lock the table\");\n\n            if items", "            let edx = self.lock().expect(\"couldn't lock the table\");\n\n            if items")]),
 ("ins-same-ok", "bug", ["P26"], [(EM, INS, INS.replace("if items.keys().any(|token| edx.contains_key(token)) {", "if items.iter().any(|(token, v)| edx.get(token).is_some_and(|x| x.tag != v.tag)) {"))]),
 ("del-stop", "bug", ["P26"], [(EM, DEL, """            for token in &*items {
                if edx.remove(token).is_none() {
                    break;
                }
            }
""")]),
 ("del-err", "bug", ["P26"], [(EM, DEL, """            for token in &*items {
                if edx.remove(token).is_none() {
                    return Ok(());
                }
            }
""")]),
 ("del-retain-rev", "bug", ["P26"], [(EM, DEL, "            edx.retain(|token, _| items.contains(token));\n")]),
 ("del-retain-more", "bug", ["P26"], [(EM, DEL, "            edx.retain(|token, v| !items.contains(token) && v.tag != [0; 16]);\n")]),
 ("del-cond", "bug", ["P26"], [(EM, DEL, "            if items.iter().all(|t| edx.contains_key(t)) {\n                for token in &*items {\n                    edx.remove(token);\n                }\n            }\n")]),
 ("del-skip", "bug", ["P26"], [(EM, DEL, "            for token in items.iter().skip(1) {\n                edx.remove(token);\n            }\n")]),
 ("del-clear", "bug", ["P26"], [(EM, DEL, "            if items.len() >= edx.len() {\n                edx.clear();\n                return Ok(());\n            }\n" + DEL)]),
 ("fet-take", "bug", ["P26"], [(EM, FET, FET.replace(".into_iter()\n", ".into_iter()\n                    .take(1 << 16)\n"))]),
 ("fet-while", "bug", ["P26"], [(EM, FET, FET.replace("filter_map(|token|", "map_while(|token|"))]),
 ("fet-missing-err", "bug", ["P26"], [(EM, FET, """            let edx = self.lock().expect("couldn't lock the table");
            let mut res = Vec::with_capacity(tokens.len());
            for token in tokens {
                let Some(v) = edx.get(&token) else { return Err(InMemoryDbError("missing".to_string())) };
                res.push((token, v.clone()));
            }
            Ok(TokenWithEncryptedValueList::from(res))
""")]),
 ("fet-filter", "bug", ["P26"], [(EM, FET, FET.replace("                            .cloned()\n", "                            .filter(|v| v.tag != [0; 16])\n                            .cloned()\n"))]),
 ("dmp-filter", "bug", ["P26"], [(EM, DMP, DMP.replace("                .copied()\n", "                .copied()\n                .filter(|t| t.as_ref()[0] != 0)\n"))]),
 ("dmp-take", "bug", ["P26"], [(EM, DMP, DMP.replace("                .copied()\n", "                .copied()\n                .take(1 << 20)\n"))]),
 ("dmp-skip", "bug", ["P26"], [(EM, DMP, DMP.replace("                .copied()\n", "                .copied()\n                .skip_while(|t| t.as_ref()[0] == 0)\n"))]),
]
