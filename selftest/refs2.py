"""Refactorings which keep the behaviour, across the files."""
MM, IX, G, GC, C, S, ES, E = ("src/findex_mm/mm.rs", "src/index/mod.rs", "src/findex_graph/graph.rs", "src/findex_graph/compact.rs",
                              "src/findex_mm/compact.rs", "src/findex_mm/structs.rs", "src/edx/structs.rs", "src/edx/mod.rs")
SEEDCOPY = """        // TODO: avoid this copy
        let mut seed =
            <FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Seed::default();
        seed.as_mut().copy_from_slice(key.as_bytes());
        let key = self.findex_graph.derive_keys(&seed);
"""
IXIMPL = """    /// Number of items to compact at once.
    ///
    /// Given"""


def mods(verb, what):
    return """        let mut modifications = HashMap::<_, Vec<_>>::new();
        for (value, keywords) in %s {
            for keyword in keywords {
                modifications
                    .entry(keyword)
                    .or_default()
                    .push((Operation::%s, value.clone()));
            }
        }
""" % (what, verb)


FETCH = """            let indexed_values = self.findex_mm.get(key, tags, label).await?;
"""
INTR = """            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;

            if is_interrupted {
                tags = HashSet::new();
            }

            graph.extend(local_graph);
"""
LOOPG = """            for (tag, values) in indexed_values {
                let entry = local_graph
                    .entry(tag)
                    .or_insert_with(|| HashSet::with_capacity(values.len()));
                for value in values {
                    let value = IndexedValue::<Tag, Value>::try_from(value.as_slice())?;
                    if let IndexedValue::Pointer(child) = &value {
                        if !graph.contains_key(child) {
                            // Marks the pointers to new tags to be searched at the next iteration.
                            tags.insert(child.clone());
                        }
                    }
                    entry.insert(value);
                }
            }
"""
NEWENTRY = """                let mut entry = if let Some(ciphertext) = encrypted_entries.get(token) {
                    Entry::<ChainTable>::from(self.entry_table.resolve(key, ciphertext)?)
                } else {
                    // This tag is not indexed yet in the Entry table.
                    new_tags.insert((*tag).clone());
                    Entry {
                        seed: self
                            .chain_table
                            .gen_seed(&mut *rng.lock().expect("could not lock mutex")),
                        tag_hash: *tag_hash,
                        chain_token: None,
                    }
                };
"""
RETAIN = """            chain_additions.retain(|_, (k, _, _)| encrypted_entries.contains_key(k));
            new_tags.retain(|tag| !chain_additions.contains_key(tag));
"""
COMMITDOC = """    /// Commits the given chain modifications into the Entry Table.
"""
TAGHASH = """                let mut tag_hash = [0; HASH_LENGTH];
                let mut hasher = Sha3::v256();
                hasher.update(tag.as_ref());
                hasher.finalize(&mut tag_hash);
"""
INSLOOP = """        for (tag, links) in chain_additions {
            let (chain_key, tokens) = chain_tokens.remove(&tag).ok_or_else(|| {
                CoreError::Crypto("no token not found for tag {tag:?}".to_string())
            })?;
            for (token, link) in tokens.into_iter().zip(links.into_iter()) {
                encrypted_links.insert(
                    token,
                    self.chain_table.prepare(
                        &mut *rng.lock().expect("could not lock mutex"),
                        &chain_key,
                        link.0,
                    )?,
                );
            }
        }
"""
UNROLL = """        let mut chain = Vec::new();
        chain.push(self.chain_table.tokenize(key, seed, None));
        while &chain[chain.len() - 1] != last_token {
            chain.push(
                self.chain_table
                    .tokenize(key, &chain[chain.len() - 1], None),
            );
        }
        chain
"""
DERIVE = """        let mut res = Vec::with_capacity(n);
        for _ in 0..n {
            let new_token = self.chain_table.tokenize(ct_key, &last_token, None);
            res.push(new_token);
            last_token = new_token;
        }
        res
"""
META = """        let chain_tokens = entry
            .chain_token
            .as_ref()
            .map(|last_token| self.unroll(&chain_key, &entry.tag_hash, last_token))
            .unwrap_or_default();
        (chain_key, chain_tokens)
"""
GETLINKS = """        for (tag, (chain_key, chain_tokens)) in chain_metadata {
            let chain_links = chain_tokens
                .iter()
                .filter_map(|token| links.get(token))
                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;

            indexed_values
                .entry(tag)
                .or_default()
                .extend(self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&chain_links)?);
        }
"""
UNIQ1 = """        let n_entries = entries.len();
        let entries = entries.into_iter().try_fold(
            HashMap::with_capacity(n_entries),
            |mut acc, (k, v)| {
                let old_v = acc.insert(k, v);
                if old_v.is_some() {
                    Err(Error::<UserError>::Crypto(
                        "Entry Table keys are not unique".to_string(),
                    ))
                } else {
                    Ok(acc)
                }
            },
        )?;
"""
UNIQ2 = """        let n_links = encrypted_links.len();
        let encrypted_links = encrypted_links.into_iter().try_fold(
            HashMap::with_capacity(n_links),
            |mut acc, (k, v)| {
                let old_v = acc.insert(k, v);
                if old_v.is_some() {
                    Err(Error::<UserError>::Crypto(
                        "Entry Table keys are not unique".to_string(),
                    ))
                } else {
                    Ok(acc)
                }
            },
        )?;
"""
STEP3 = """        let res = self.chain_table.insert(new_links).await;
        if res.is_err() {
            self.chain_table.delete(new_links_tokens).await?;
            return Err(Error::Crypto(format!(
                "An error occurred during the insert operation. All modifications were reverted. \\
                 ({res:?})"
            )));
        };

        let res = self.entry_table.insert(new_entries).await.map_err(|e| {
            Error::Crypto(format!(
                "An error occurred during the `insert` operation, all modifications were reverted: {e}"
            ))
        });

        if res.is_ok() {
            self.chain_table.delete(old_links).await?;
            self.entry_table.delete(old_entries).await?;
        } else {
            // No entry was inserted: entries stored under the new tokens (if any) were already
            // there before this operation and should not be deleted.
            self.chain_table.delete(new_links_tokens).await?;
        }

        res
"""
REWRITE = """            let rng = &mut *rng.lock().expect("could not lock mutex");
            let mut new_entry =
                Entry::new(self.chain_table.gen_seed(rng), old_entry.tag_hash, None);

            let chain_key = self.chain_table.derive_keys(&new_entry.seed);
            let chain_tokens =
                self.derive_chain_tokens(&chain_key, new_entry.tag_hash.into(), chain_links.len());
            new_entry.chain_token = chain_tokens.last().copied();
            for (token, link) in chain_tokens.into_iter().zip(chain_links) {
                new_links.insert(
                    token,
                    self.chain_table.prepare(&mut *rng, &chain_key, link.0)?,
                );
            }
            *old_entry = new_entry;
"""
REMAIN = """        let remaining_values = indexed_values
            .into_iter()
            .map(|(entry_token, associated_values)| {
                let remaining_values = associated_values
                    .into_iter()
                    .filter(|value| {
                        // Filter out obsolete data.
                        value
                            .get_data()
                            .map_or(true, |data| remaining_data.contains(data))
                    })
                    .collect::<HashSet<_>>();
                (entry_token, remaining_values)
            })
            .collect::<HashMap<_, _>>();
"""
DECOMP_PUSH = """                pos += 1;
                if pos == LINE_LENGTH {
                    chain.push(link);
                    link = Link::new();
                    pos = 0;
                }
            }
"""
M = [
 ("search-setup-helper", "ref", [], [(IX, '        trace!("search: entering: keywords: {keywords}");\n' + SEEDCOPY, '        trace!("search: entering: keywords: {keywords}");\n        let key = self.graph_key(key);\n'),
   (IX, '        trace!("add: entering: additions: {additions}");\n' + SEEDCOPY, '        trace!("add: entering: additions: {additions}");\n        let key = self.graph_key(key);\n'),
   (IX, '        trace!("delete: entering: deletions: {deletions}");\n' + SEEDCOPY, '        trace!("delete: entering: deletions: {deletions}");\n        let key = self.graph_key(key);\n'),
   (IX, IXIMPL, """    fn graph_key(&self, key: &UserKey) -> <FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Key {
        let mut seed =
            <FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Seed::default();
        seed.as_mut().copy_from_slice(key.as_bytes());
        self.findex_graph.derive_keys(&seed)
    }

""" + IXIMPL)]),
 ("update-helper", "ref", [], [(IX, mods("Addition", "additions") + """
        Ok(Keywords::from(
            self.findex_graph
                .insert(self.rng.clone(), &key, modifications, label)
                .await?,
        ))
""", "        self.update(&key, label, additions, Operation::Addition).await\n"), (IX, mods("Deletion", "deletions") + """
        Ok(Keywords::from(
            self.findex_graph
                .insert(self.rng.clone(), &key, modifications, label)
                .await?,
        ))
""", "        self.update(&key, label, deletions, Operation::Deletion).await\n"), (IX, IXIMPL, """    async fn update(
        &self,
        key: &<FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Key,
        label: &Label,
        associations: IndexedValueToKeywordsMap,
        operation: Operation,
    ) -> Result<Keywords, Error<UserError>> {
        let mut modifications = HashMap::<_, Vec<_>>::new();
        for (value, keywords) in associations {
            for keyword in keywords {
                modifications
                    .entry(keyword)
                    .or_default()
                    .push((operation, value.clone()));
            }
        }
        let new_keywords = self
            .findex_graph
            .insert(self.rng.clone(), key, modifications, label)
            .await?;
        Ok(new_keywords.into())
    }

""" + IXIMPL)]),
 ("mods-fold", "ref", [], [(IX, mods("Addition", "additions"), """        let modifications = additions
            .into_iter()
            .flat_map(|(value, keywords)| {
                keywords.into_iter().map(move |keyword| (keyword, value.clone()))
            })
            .fold(HashMap::<_, Vec<_>>::new(), |mut acc, (keyword, value)| {
                acc.entry(keyword).or_default().push((Operation::Addition, value));
                acc
            });
""")]),
 ("mods-match-entry", "ref", [], [(IX, mods("Deletion", "deletions"), """        let mut modifications: HashMap<Keyword, Vec<_>> = HashMap::new();
        for (value, keywords) in deletions {
            for keyword in keywords {
                let modification = (Operation::Deletion, value.clone());
                if let Some(list) = modifications.get_mut(&keyword) {
                    list.push(modification);
                } else {
                    modifications.insert(keyword, vec![modification]);
                }
            }
        }
""")]),
 ("graph-loop-break", "ref", [], [(G, "        while !tags.is_empty() {\n" + FETCH, "        loop {\n            if tags.is_empty() {\n                break;\n            }\n" + FETCH), (G, INTR, """            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;

            graph.extend(local_graph);

            if is_interrupted {
                break;
            }
""")]),
 ("graph-return", "ref", [], [(G, INTR, """            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;
            graph.extend(local_graph);
            if is_interrupted {
                return Ok(graph);
            }
""")]),
 ("graph-match-value", "ref", [], [(G, LOOPG, """            for (tag, values) in indexed_values {
                let mut decoded = HashSet::with_capacity(values.len());
                for bytes in values {
                    let value = IndexedValue::<Tag, Value>::try_from(bytes.as_slice())?;
                    match &value {
                        IndexedValue::Pointer(child) if !graph.contains_key(child) => {
                            tags.insert(child.clone());
                        }
                        _ => (),
                    }
                    decoded.insert(value);
                }
                local_graph.insert(tag, decoded);
            }
""")]),
 ("graph-two-passes", "ref", [], [(G, LOOPG, """            for (tag, values) in indexed_values {
                let values = values
                    .into_iter()
                    .map(|value| IndexedValue::<Tag, Value>::try_from(value.as_slice()))
                    .collect::<Result<HashSet<_>, _>>()?;
                tags.extend(
                    values
                        .iter()
                        .filter_map(IndexedValue::get_pointer)
                        .filter(|child| !graph.contains_key(*child))
                        .cloned(),
                );
                local_graph.insert(tag, values);
            }
""")]),
 ("commit-entry-helper", "ref", [], [(MM, NEWENTRY, """                let stored = encrypted_entries.get(token);
                if stored.is_none() {
                    // This tag is not indexed yet in the Entry table.
                    new_tags.insert((*tag).clone());
                }
                let mut entry = self.load_entry(&rng, key, stored, *tag_hash)?;
"""), (MM, COMMITDOC, """    /// Decrypts the stored entry or creates a new one.
    fn load_entry(
        &self,
        rng: &Arc<Mutex<impl CryptoRngCore>>,
        key: &EntryTable::Key,
        stored: Option<&EntryTable::EncryptedValue>,
        tag_hash: [u8; HASH_LENGTH],
    ) -> Result<Entry<ChainTable>, Error<UserError>> {
        match stored {
            Some(ciphertext) => Ok(Entry::from(self.entry_table.resolve(key, ciphertext)?)),
            None => {
                let mut rng = rng.lock().expect("could not lock mutex");
                let seed = self.chain_table.gen_seed(&mut *rng);
                Ok(Entry::new(seed, tag_hash, None))
            }
        }
    }

""" + COMMITDOC)]),
 ("commit-loop", "ref", [], [(MM, "        while !chain_additions.is_empty() {\n            let mut new_entries", "        loop {\n            if chain_additions.is_empty() {\n                return Ok((new_tags, chain));\n            }\n            let mut new_entries"),
   (MM, RETAIN + "        }\n\n        Ok((new_tags, chain))\n", RETAIN + "        }\n")]),
 ("commit-collect", "ref", [], [(MM, RETAIN, """            chain_additions = chain_additions
                .into_iter()
                .filter(|(_, (token, _, _))| encrypted_entries.contains_key(token))
                .collect();
            new_tags.retain(|tag| !chain_additions.contains_key(tag));
""")]),
 ("commit-rejected", "ref", [], [(MM, """            encrypted_entries = self
                .entry_table
                .upsert(encrypted_entries, new_entries)
                .await?;
""" + RETAIN, """            let rejected = self
                .entry_table
                .upsert(encrypted_entries, new_entries)
                .await?;
            chain_additions.retain(|_, (k, _, _)| rejected.contains_key(k));
            for tag in chain_additions.keys() {
                new_tags.remove(*tag);
            }
            encrypted_entries = rejected;
""")]),
 ("commit-order", "ref", [], [(MM, RETAIN, """            new_tags.retain(|tag| {
                chain_additions
                    .get(tag)
                    .map_or(true, |(token, _, _)| !encrypted_entries.contains_key(token))
            });
            chain_additions.retain(|_, (token, _, _)| encrypted_entries.contains_key(token));
""")]),
 ("tag-hash-helper", "ref", [], [(MM, "            .map(|tag| {\n" + TAGHASH, "            .map(|tag| {\n                let tag_hash = Self::hash_tag(tag.as_ref());\n"), (MM, "            .map(|(tag, links)| {\n" + TAGHASH, "            .map(|(tag, links)| {\n                let tag_hash = Self::hash_tag(tag.as_ref());\n"),
   (MM, COMMITDOC, """    fn hash_tag(bytes: &[u8]) -> [u8; HASH_LENGTH] {
        let mut res = [0; HASH_LENGTH];
        let mut hasher = Sha3::v256();
        hasher.update(bytes);
        hasher.finalize(&mut res);
        res
    }

""" + COMMITDOC)]),
 ("insert-collect", "ref", [], [(MM, """        let mut encrypted_links = HashMap::with_capacity(
            chain_tokens
                .values()
                .map(|(_, chain_tokens)| chain_tokens.len())
                .sum(),
        );

""" + INSLOOP, """        let mut encrypted_links = HashMap::new();
        for (tag, links) in chain_additions {
            let Some((chain_key, tokens)) = chain_tokens.remove(&tag) else {
                return Err(CoreError::Crypto("no token not found for tag {tag:?}".to_string()).into());
            };
            let rows = tokens
                .into_iter()
                .zip(links)
                .map(|(token, Link(bytes))| {
                    let mut rng = rng.lock().expect("could not lock mutex");
                    self.chain_table
                        .prepare(&mut *rng, &chain_key, bytes)
                        .map(|row| (token, row))
                })
                .collect::<Result<Vec<_>, _>>()?;
            encrypted_links.extend(rows);
        }
""")]),
 ("insert-get", "ref", [], [(MM, "chain_tokens.remove(&tag).ok_or_else(", "chain_tokens.get(&tag).ok_or_else("), (MM, "let (new_tags, mut chain_tokens) = self", "let (new_tags, chain_tokens) = self"), (MM, "for (token, link) in tokens.into_iter().zip(links.into_iter()) {\n                encrypted_links.insert(\n                    token,", "for (token, link) in tokens.iter().zip(links.into_iter()) {\n                encrypted_links.insert(\n                    *token,"), (MM, "                        &chain_key,\n                        link.0,", "                        chain_key,\n                        link.0,")]),
 ("unroll-successors", "ref", [], [(MM, UNROLL, """        let mut token = self.chain_table.tokenize(key, seed, None);
        let mut chain = vec![token];
        while token != *last_token {
            token = self.chain_table.tokenize(key, &token, None);
            chain.push(token);
        }
        chain
""")]),
 ("derive-map2", "ref", [], [(MM, DERIVE, """        (0..n)
            .map(|_| {
                last_token = self.chain_table.tokenize(ct_key, &last_token, None);
                last_token
            })
            .collect()
""")]),
 ("meta-let-else", "ref", [], [(MM, META, """        let Some(last_token) = entry.chain_token.as_ref() else {
            return (chain_key, Vec::new());
        };
        let chain_tokens = self.unroll(&chain_key, &entry.tag_hash, last_token);
        (chain_key, chain_tokens)
""")]),
 ("get-links-helper", "ref", [], [(MM, GETLINKS, """        for (tag, (chain_key, chain_tokens)) in chain_metadata {
            let values = self.read_chain(&chain_key, &chain_tokens, &links)?;
            indexed_values.entry(tag).or_default().extend(values);
        }
"""), (MM, COMMITDOC, """    fn read_chain(
        &self,
        chain_key: &ChainTable::Key,
        chain_tokens: &[Token],
        links: &HashMap<Token, ChainTable::EncryptedValue>,
    ) -> Result<HashSet<Vec<u8>>, Error<UserError>> {
        let mut chain = Vec::with_capacity(chain_tokens.len());
        for token in chain_tokens {
            if let Some(ciphertext) = links.get(token) {
                chain.push(Link(self.chain_table.resolve(chain_key, ciphertext)?));
            }
        }
        Ok(self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&chain)?)
    }

""" + COMMITDOC)]),
 ("fetch-loop", "ref", [], [(MM, """        self.entry_table
            .get(tokens)
            .await?
            .into_iter()
            .map(|(token, encrypted_entry)| {
                self.entry_table
                    .resolve(key, &encrypted_entry)
                    .map(|entry| (token, Entry::from(entry)))
            })
            .collect()
""", """        let encrypted_entries = self.entry_table.get(tokens).await?;
        let mut entries = Vec::with_capacity(encrypted_entries.len());
        for (token, encrypted_entry) in encrypted_entries {
            let bytes = self.entry_table.resolve(key, &encrypted_entry)?;
            entries.push((token, Entry::from(bytes)));
        }
        Ok(entries)
""")]),
 ("by-tag-loop", "ref", [], [(MM, """        Ok(entries
            .into_iter()
            .filter_map(|(token, entry)| tokens.get(&token).cloned().map(|tag| (tag, entry)))
            .collect())
""", """        let mut res = Vec::with_capacity(entries.len());
        for (token, entry) in entries {
            if let Some(tag) = tokens.get(&token) {
                res.push((tag.clone(), entry));
            }
        }
        Ok(res)
""")]),
 ("unique-helper", "ref", [], [(C, UNIQ1, "        let entries = Self::unique(entries)?;\n"), (C, UNIQ2, "        let encrypted_links = Self::unique(encrypted_links)?;\n"), (C, "    /// Returns the set of Entry Table tokens.\n", """    fn unique<V>(rows: Vec<(Token, V)>) -> Result<HashMap<Token, V>, Error<UserError>> {
        let mut res = HashMap::with_capacity(rows.len());
        for (token, value) in rows {
            if res.insert(token, value).is_some() {
                return Err(Error::Crypto("Entry Table keys are not unique".to_string()));
            }
        }
        Ok(res)
    }

    /// Returns the set of Entry Table tokens.
""")]),
 ("step3-match", "ref", [], [(C, STEP3, """        if let Err(e) = self.chain_table.insert(new_links).await {
            self.chain_table.delete(new_links_tokens).await?;
            return Err(Error::Crypto(format!(
                "An error occurred during the insert operation. All modifications were reverted. ({e:?})"
            )));
        }

        match self.entry_table.insert(new_entries).await {
            Ok(()) => {
                self.chain_table.delete(old_links).await?;
                self.entry_table.delete(old_entries).await
            }
            Err(e) => {
                // Nothing was inserted in the Entry Table.
                self.chain_table.delete(new_links_tokens).await?;
                Err(Error::Crypto(format!(
                    "An error occurred during the `insert` operation, all modifications were reverted: {e}"
                )))
            }
        }
""")]),
 ("step3-helper", "ref", [], [(C, STEP3, """        if let Err(e) = self.chain_table.insert(new_links).await {
            return Err(self.revert(new_links_tokens, e).await?);
        }
        if let Err(e) = self.entry_table.insert(new_entries).await {
            return Err(self.revert(new_links_tokens, e).await?);
        }
        self.chain_table.delete(old_links).await?;
        self.entry_table.delete(old_entries).await?;
        Ok(())
"""), (C, "    /// Returns the set of Entry Table tokens.\n", """    /// Removes the links written before the given error.
    async fn revert(&self, links: HashSet<Token>, e: Error<UserError>) -> Result<Error<UserError>, Error<UserError>> {
        self.chain_table.delete(links).await?;
        Ok(Error::Crypto(format!("An error occurred during the `insert` operation, all modifications were reverted: {e}")))
    }

    /// Returns the set of Entry Table tokens.
""")]),
 ("rewrite-helper", "ref", [], [(C, REWRITE, """            let (new_entry, rows) = self.rewrite(&rng, old_entry.tag_hash, chain_links)?;
            new_links.extend(rows);
            *old_entry = new_entry;
"""), (C, "    /// Returns the set of Entry Table tokens.\n", """    #[allow(clippy::type_complexity)]
    fn rewrite(
        &self,
        rng: &Arc<Mutex<impl CryptoRngCore>>,
        tag_hash: [u8; crate::parameters::HASH_LENGTH],
        links: Vec<Link>,
    ) -> Result<(Entry<ChainTable>, Vec<(Token, ChainTable::EncryptedValue)>), Error<UserError>> {
        let mut rng = rng.lock().expect("could not lock mutex");
        let seed = self.chain_table.gen_seed(&mut *rng);
        let chain_key = self.chain_table.derive_keys(&seed);
        let tokens = self.derive_chain_tokens(&chain_key, tag_hash.into(), links.len());
        let last_token = tokens.last().copied();
        let mut rows = Vec::with_capacity(links.len());
        for (token, link) in tokens.into_iter().zip(links) {
            rows.push((token, self.chain_table.prepare(&mut *rng, &chain_key, link.0)?));
        }
        Ok((Entry::new(seed, tag_hash, last_token), rows))
    }

    /// Returns the set of Entry Table tokens.
""")]),
 ("remain-loop", "ref", [], [(IX, REMAIN, """        let mut remaining_values = HashMap::with_capacity(indexed_values.len());
        for (entry_token, mut values) in indexed_values {
            values.retain(|value| match value {
                IndexedValue::Pointer(_) => true,
                IndexedValue::Data(data) => remaining_data.contains(data),
            });
            remaining_values.insert(entry_token, values);
        }
""")]),
 ("remain-is-pointer", "ref", [], [(IX, """                        value
                            .get_data()
                            .map_or(true, |data| remaining_data.contains(data))
""", """                        value.is_pointer()
                            || value.get_data().is_some_and(|data| remaining_data.contains(data))
""")]),
 ("data-loop", "ref", [], [(IX, """        let indexed_data = indexed_values
            .values()
            .flatten()
            .filter_map(IndexedValue::get_data)
            .cloned()
            .collect();
""", """        let mut indexed_data = HashSet::new();
        for values in indexed_values.values() {
            for value in values {
                if let IndexedValue::Data(data) = value {
                    indexed_data.insert(data.clone());
                }
            }
        }
""")]),
 ("key-order", "ref", [], [(IX, """        let mut new_seed =
            <FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Seed::default();
        new_seed.as_mut().copy_from_slice(new_key);
        let new_key = self.findex_graph.derive_keys(&new_seed);

        let mut old_seed =
            <FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Seed::default();
        old_seed.as_mut().copy_from_slice(old_key);
        let old_key = self.findex_graph.derive_keys(&old_seed);

        let entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;
""", """        let entry_tokens = self.findex_graph.list_indexed_encrypted_tags().await?;

        let mut old_seed =
            <FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Seed::default();
        old_seed.as_mut().copy_from_slice(old_key);
        let mut new_seed =
            <FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Seed::default();
        new_seed.as_mut().copy_from_slice(new_key);
        let (old_key, new_key) = (
            self.findex_graph.derive_keys(&old_seed),
            self.findex_graph.derive_keys(&new_seed),
        );
""")]),
 ("batch-loop", "ref", [], [(IX, """        for i in 0..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {
            self.compact_batch(
                &old_key,
                &new_key,
                new_label,
                &entries_to_compact,
                entry_tokens[i * Self::COMPACT_BATCH_SIZE..(i + 1) * Self::COMPACT_BATCH_SIZE]
                    .iter()
                    .copied()
                    .collect(),
                data_filter,
            )
            .await?;
        }

        self.compact_batch(
            &old_key,
            &new_key,
            new_label,
            &entries_to_compact,
            entry_tokens
                [(entry_tokens.len() / Self::COMPACT_BATCH_SIZE) * Self::COMPACT_BATCH_SIZE..]
                .iter()
                .copied()
                .collect(),
            data_filter,
        )
        .await?;

        Ok(())
""", """        let (batches, rest) = {
            let split = entry_tokens.len() - entry_tokens.len() % Self::COMPACT_BATCH_SIZE;
            entry_tokens.split_at(split)
        };
        for batch in batches.chunks(Self::COMPACT_BATCH_SIZE) {
            let batch = batch.iter().copied().collect();
            self.compact_batch(&old_key, &new_key, new_label, &entries_to_compact, batch, data_filter)
                .await?;
        }
        let rest = rest.iter().copied().collect();
        self.compact_batch(&old_key, &new_key, new_label, &entries_to_compact, rest, data_filter)
            .await
""")]),
 ("decomp-helper", "ref", [], [(MM, """            for i in 0..full_block_number {
                link.set_operation(pos, *operation)?;
                link.set_block(pos, &value[i * BLOCK_LENGTH..(i + 1) * BLOCK_LENGTH], false)?;
                pos += 1;
                if pos == LINE_LENGTH {
                    chain.push(link);
                    link = Link::new();
                    pos = 0;
                }
            }

            link.set_operation(pos, *operation)?;
            link.set_block(pos, &value[full_block_number * BLOCK_LENGTH..], true)?;
            pos += 1;
            if pos == LINE_LENGTH {
                chain.push(link);
                link = Link::new();
                pos = 0;
            }
""", """            for i in 0..=full_block_number {
                let is_last = i == full_block_number;
                let end = if is_last { value.len() } else { (i + 1) * BLOCK_LENGTH };
                link.set_operation(pos, *operation)?;
                link.set_block(pos, &value[i * BLOCK_LENGTH..end], is_last)?;
                pos += 1;
                if pos == LINE_LENGTH {
                    chain.push(std::mem::replace(&mut link, Link::new()));
                    pos = 0;
                }
            }
""")]),
 ("block-range", "ref", [], [(S, "        let block = &self.0[(1 + pos * (BLOCK_LENGTH + 1))..=((pos + 1) * (BLOCK_LENGTH + 1))];\n", "        let start = 1 + pos * (BLOCK_LENGTH + 1);\n        let block = &self.0[start..start + BLOCK_LENGTH + 1];\n"), (S, "        let block = &mut self.0[(1 + pos * (BLOCK_LENGTH + 1))..=((pos + 1) * (BLOCK_LENGTH + 1))];\n", "        let start = 1 + pos * (BLOCK_LENGTH + 1);\n        let block = &mut self.0[start..start + BLOCK_LENGTH + 1];\n")]),
 ("guard-ge", "ref", [], [(S, "        if pos > LINE_WIDTH {\n            return Err(CoreError::Crypto(format!(\n                \"cannot query a block at pos ({pos}) greater than the line length ({LINE_WIDTH})\"\n            )));\n        }\n        let block", "        if pos >= LINE_WIDTH {\n            return Err(CoreError::Crypto(format!(\n                \"cannot query a block at pos ({pos}) greater than the line length ({LINE_WIDTH})\"\n            )));\n        }\n        let block")]),
 ("db-lock-helper", "ref", [], [(E, "            let edx = &mut self.lock().expect(\"could not lock mutex\");\n            for token in &*items {\n                edx.remove(token);\n            }\n            Ok(())\n", "            let mut table = self.table();\n            items.iter().for_each(|token| {\n                table.remove(token);\n            });\n            Ok(())\n"), (E, "            let edx = &mut self.lock().expect(\"couldn't lock the table\");\n\n            if items.keys()", "            let mut edx = self.table();\n\n            if items.keys()"), (E, "    impl<const VALUE_LENGTH: usize> InMemoryDb<VALUE_LENGTH> {\n", "    impl<const VALUE_LENGTH: usize> InMemoryDb<VALUE_LENGTH> {\n        fn table(&self) -> std::sync::MutexGuard<'_, TokenToEncryptedValueMap<VALUE_LENGTH>> {\n            self.0.lock().expect(\"could not lock mutex\")\n        }\n\n")]),
 ("entry-split", "ref", [], [(S, """        let mut chain_token = [0; TOKEN_LENGTH];
        chain_token.copy_from_slice(&value[..TOKEN_LENGTH]);
        let mut seed = ChainTable::Seed::default();
        seed.as_mut()
            .copy_from_slice(&value[TOKEN_LENGTH..TOKEN_LENGTH + SEED_LENGTH]);
        let mut tag_hash = [0; HASH_LENGTH];
        tag_hash.copy_from_slice(&value[TOKEN_LENGTH + SEED_LENGTH..]);
""", """        let (token_bytes, rest) = value.split_at(TOKEN_LENGTH);
        let (seed_bytes, hash_bytes) = rest.split_at(SEED_LENGTH);
        let mut chain_token = [0; TOKEN_LENGTH];
        chain_token.copy_from_slice(token_bytes);
        let mut seed = ChainTable::Seed::default();
        seed.as_mut().copy_from_slice(seed_bytes);
        let mut tag_hash = [0; HASH_LENGTH];
        tag_hash.copy_from_slice(hash_bytes);
""")]),
 ("entry-then", "ref", [], [(S, """            chain_token: if [0; TOKEN_LENGTH] == chain_token {
                None
            } else {
                Some(Token::from(chain_token))
            },
""", """            chain_token: (chain_token != [0; TOKEN_LENGTH]).then(|| Token::from(chain_token)),
""")]),
 ("prepare-chains-loop", "ref", [], [(C, """        let indexed_chains = chain_metadata
            .iter()
            .map(|(entry_token, (chain_key, chain_tokens))| {
                let links = chain_tokens
                    .iter()
                    .filter_map(|token| encrypted_links.get(token))
                    .map(|encrypted_link| {
                        self.chain_table
                            .resolve(chain_key, encrypted_link)
                            .map(Link)
                    })
                    // Collect in a vector to preserve the chain order.
                    .collect::<Result<Vec<_>, _>>()?;

                Ok((
                    *entry_token,
                    self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&links)?,
                ))
            })
            .collect::<Result<_, Error<UserError>>>()?;
""", """        let mut indexed_chains = HashMap::with_capacity(chain_metadata.len());
        for (entry_token, (chain_key, chain_tokens)) in &chain_metadata {
            let mut links = Vec::with_capacity(chain_tokens.len());
            for token in chain_tokens {
                let Some(encrypted_link) = encrypted_links.get(token) else {
                    continue;
                };
                links.push(Link(self.chain_table.resolve(chain_key, encrypted_link)?));
            }
            let values = self.recompose::<BLOCK_LENGTH, LINE_WIDTH>(&links)?;
            indexed_chains.insert(*entry_token, values);
        }
""")]),
 ("remaining-tokens-loop", "ref", [], [(C, """        let remaining_entry_tokens = continuation
            .entries
            .keys()
            .filter(|token| {
                remaining_associations
                    .get(token)
                    .map_or(true, |associated_values| !associated_values.is_empty())
            })
            .copied()
            .collect::<HashSet<_>>();
""", """        let mut remaining_entry_tokens = HashSet::with_capacity(continuation.entries.len());
        for token in continuation.entries.keys() {
            match remaining_associations.get(token) {
                Some(values) if values.is_empty() => (),
                _ => {
                    remaining_entry_tokens.insert(*token);
                }
            }
        }
""")]),
 ("graph-compact-loop", "ref", [], [(GC, """        let indexed_values = indexed_values
            .into_iter()
            .map(|(token, value)| {
                value
                    .into_iter()
                    .map(|v| IndexedValue::<Tag, Value>::try_from(v.as_slice()))
                    .collect::<Result<_, _>>()
                    .map(|set| (token, set))
            })
            .collect::<Result<_, _>>()?;
        Ok((indexed_values, data))
""", """        let mut res = HashMap::with_capacity(indexed_values.len());
        for (token, values) in indexed_values {
            let mut decoded = HashSet::with_capacity(values.len());
            for v in &values {
                decoded.insert(IndexedValue::<Tag, Value>::try_from(v.as_slice())?);
            }
            res.insert(token, decoded);
        }
        Ok((res, data))
""")]),
]
