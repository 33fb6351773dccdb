S = "src/findex_mm/structs.rs"
MM = "src/findex_mm/mm.rs"
CP = "src/findex_mm/compact.rs"
M = [
 ("unroll-loop", "ref", [], [(MM, """        let mut chain = Vec::new();
        chain.push(self.chain_table.tokenize(key, seed, None));
        while &chain[chain.len() - 1] != last_token {
            chain.push(
                self.chain_table
                    .tokenize(key, &chain[chain.len() - 1], None),
            );
        }
        chain""", """        let mut token = self.chain_table.tokenize(key, seed, None);
        let mut chain = vec![token];
        while token != *last_token {
            token = self.chain_table.tokenize(key, &token, None);
            chain.push(token);
        }
        chain""")]),
 ("unroll-break", "ref", [], [(MM, """        let mut chain = Vec::new();
        chain.push(self.chain_table.tokenize(key, seed, None));
        while &chain[chain.len() - 1] != last_token {
            chain.push(
                self.chain_table
                    .tokenize(key, &chain[chain.len() - 1], None),
            );
        }
        chain""", """        let mut chain = Vec::new();
        let mut token = self.chain_table.tokenize(key, seed, None);
        loop {
            chain.push(token);
            if &token == last_token {
                break;
            }
            token = self.chain_table.tokenize(key, &token, None);
        }
        chain""")]),
 ("derive-map", "ref", [], [(MM, """        let mut res = Vec::with_capacity(n);
        for _ in 0..n {
            let new_token = self.chain_table.tokenize(ct_key, &last_token, None);
            res.push(new_token);
            last_token = new_token;
        }
        res""", """        (0..n)
            .map(|_| {
                last_token = self.chain_table.tokenize(ct_key, &last_token, None);
                last_token
            })
            .collect()""")]),
 ("derive-while", "ref", [], [(MM, """        for _ in 0..n {
            let new_token = self.chain_table.tokenize(ct_key, &last_token, None);
            res.push(new_token);
            last_token = new_token;
        }
        res""", """        while res.len() < n {
            last_token = self.chain_table.tokenize(ct_key, &last_token, None);
            res.push(last_token);
        }
        res""")]),
 ("metadata-match", "ref", [], [(MM, """        let chain_tokens = entry
            .chain_token
            .as_ref()
            .map(|last_token| self.unroll(&chain_key, &entry.tag_hash, last_token))
            .unwrap_or_default();
        (chain_key, chain_tokens)""", """        let chain_tokens = match &entry.chain_token {
            Some(last_token) => self.unroll(&chain_key, &entry.tag_hash, last_token),
            None => Vec::new(),
        };
        (chain_key, chain_tokens)""")]),
 ("entry-vec", "ref", [], [(S, """        let mut res = [0; ENTRY_LENGTH];
        res[..TOKEN_LENGTH].copy_from_slice(
            value
                .chain_token
                .unwrap_or_else(|| Token::from([0; TOKEN_LENGTH]))
                .as_ref(),
        );
        res[TOKEN_LENGTH..TOKEN_LENGTH + SEED_LENGTH].copy_from_slice(value.seed.as_ref());
        res[TOKEN_LENGTH + SEED_LENGTH..].copy_from_slice(&value.tag_hash);
        res""", """        let mut res = [0; ENTRY_LENGTH];
        let (token, rest) = res.split_at_mut(TOKEN_LENGTH);
        let (seed, tag_hash) = rest.split_at_mut(SEED_LENGTH);
        if let Some(last) = &value.chain_token {
            token.copy_from_slice(last);
        }
        seed.copy_from_slice(value.seed.as_ref());
        tag_hash.copy_from_slice(&value.tag_hash);
        res""")]),
 ("entry-layout", "ref", [], [(S, """        res[TOKEN_LENGTH..TOKEN_LENGTH + SEED_LENGTH].copy_from_slice(value.seed.as_ref());
        res[TOKEN_LENGTH + SEED_LENGTH..].copy_from_slice(&value.tag_hash);""", """        res[TOKEN_LENGTH + HASH_LENGTH..].copy_from_slice(value.seed.as_ref());
        res[TOKEN_LENGTH..TOKEN_LENGTH + HASH_LENGTH].copy_from_slice(&value.tag_hash);"""), (S, """            .copy_from_slice(&value[TOKEN_LENGTH..TOKEN_LENGTH + SEED_LENGTH]);
        let mut tag_hash = [0; HASH_LENGTH];
        tag_hash.copy_from_slice(&value[TOKEN_LENGTH + SEED_LENGTH..]);""", """            .copy_from_slice(&value[TOKEN_LENGTH + HASH_LENGTH..]);
        let mut tag_hash = [0; HASH_LENGTH];
        tag_hash.copy_from_slice(&value[TOKEN_LENGTH..TOKEN_LENGTH + HASH_LENGTH]);""")]),
 ("get-loops", "ref", [], [(MM, """            let chain_links = chain_tokens
                .iter()
                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;

            indexed_values
                .entry(tag)
                .or_default()
                .extend(self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&chain_links)?);""", """            let mut chain_links = Vec::with_capacity(chain_tokens.len());
            for token in &chain_tokens {
                if let Some(ciphertext) = links.get(token) {
                    let link = self.chain_table.resolve(&chain_key, ciphertext)?;
                    chain_links.push(Link(link));
                }
            }
            let values = self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&chain_links)?;
            indexed_values.entry(tag).or_default().extend(values);""")]),
 ("commit-chain-key", "ref", [], [(MM, """                let chain_tokens = self.derive_chain_tokens(
                    &chain_key,
                    entry.chain_token.unwrap_or_else(|| entry.tag_hash.into()),
                    *n_additions,
                );
                entry.chain_token = chain_tokens.last().copied();""", """                let start = match entry.chain_token {
                    Some(last) => last,
                    None => Token::from(entry.tag_hash),
                };
                let chain_tokens = self.derive_chain_tokens(&chain_key, start, *n_additions);
                if let Some(last) = chain_tokens.last() {
                    entry.chain_token = Some(*last);
                } else {
                    entry.chain_token = None;
                }""")]),
 ("insert-flat", "ref", [], [(MM, """            for (token, link) in tokens.into_iter().zip(links.into_iter()) {
                encrypted_links.insert(
                    token,
                    self.chain_table.prepare(
                        &mut *rng.lock().expect("could not lock mutex"),
                        &chain_key,
                        link.0,
                    )?,
                );
            }""", """            let mut rng = rng.lock().expect("could not lock mutex");
            for (i, link) in links.into_iter().enumerate() {
                let encrypted_link = self.chain_table.prepare(&mut *rng, &chain_key, link.0)?;
                encrypted_links.insert(tokens[i], encrypted_link);
            }""")]),
 ("mm-empty-keeps", "ref", [], [(MM, "                entry.chain_token = chain_tokens.last().copied();", "                entry.chain_token = chain_tokens.last().copied().or(entry.chain_token);")]),
 # ---- bugs
 ("unroll-bound", "bug", ["P18"], [(MM, "while &chain[chain.len() - 1] != last_token {", "while &chain[chain.len() - 1] != last_token && chain.len() < 65536 {")]),
 ("unroll-excl", "bug", ["P18"], [(MM, """        }
        chain
    }""", """        }
        if chain.len() > 1000 { chain.pop(); }
        chain
    }""")]),
 ("metadata-skip", "bug", ["P18"], [(MM, """            .as_ref()
            .map(|last_token| self.unroll""", """            .as_ref()
            .filter(|t| t[0] != 0)
            .map(|last_token| self.unroll""")]),
 ("last-first", "bug", ["P19"], [(MM, "entry.chain_token = chain_tokens.last().copied();", "entry.chain_token = chain_tokens.first().copied();")]),
 ("last-cond", "bug", ["P19"], [(MM, "entry.chain_token = chain_tokens.last().copied();", "if entry.chain_token.is_none() || *n_additions > 1 { entry.chain_token = chain_tokens.last().copied(); }")]),
 ("restart", "bug", ["P18"], [(MM, "entry.chain_token.unwrap_or_else(|| entry.tag_hash.into()),", "if *n_additions > 1 { entry.tag_hash.into() } else { entry.chain_token.unwrap_or_else(|| entry.tag_hash.into()) },")]),
 ("compact-start-seed", "bug", ["P18"], [(CP, "self.derive_chain_tokens(&chain_key, new_entry.tag_hash.into(), chain_links.len());", "self.derive_chain_tokens(&chain_key, old_entry.chain_token.unwrap_or_else(|| new_entry.tag_hash.into()), chain_links.len());")]),
 ("reseed", "bug", ["P19"], [(MM, "entry.chain_token = chain_tokens.last().copied();", "entry.chain_token = chain_tokens.last().copied(); if *n_additions > 7 { entry.seed = self.chain_table.gen_seed(&mut *rng.lock().expect(\"could not lock mutex\")); }")]),
 ("tag-hash-update", "bug", ["P19"], [(MM, "entry.chain_token = chain_tokens.last().copied();", "entry.chain_token = chain_tokens.last().copied(); entry.tag_hash = *tag_hash; if *n_additions > 3 { entry.tag_hash[0] = 0; }")]),
 ("compact-tag-hash", "bug", ["P19"], [(CP, "Entry::new(self.chain_table.gen_seed(rng), old_entry.tag_hash, None);", "Entry::new(self.chain_table.gen_seed(rng), { let mut h = old_entry.tag_hash; if chain_links.len() > 9 { h[31] = 0; } h }, None);")]),
 ("other-key-row", "bug", ["P18"], [(CP, "self.chain_table.prepare(&mut *rng, &chain_key, link.0)?,", "self.chain_table.prepare(&mut *rng, &self.chain_table.derive_keys(&old_entry.seed), link.0)?,")]),
]
