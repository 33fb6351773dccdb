IX = "src/index/mod.rs"
MMC = "src/findex_mm/compact.rs"
GC = "src/findex_graph/compact.rs"
GUARD = "if (old_key == new_key) && (old_label == new_label) {"
KEEP = """                            .get_data()
                            .map_or(true, |data| remaining_data.contains(data))"""
BLOCKS = """        for i in 0..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {
            self.compact_batch(
                &old_key,
                &new_key,
                new_label,
                &entries_to_compact,
                entry_tokens[i * Self::COMPACT_BATCH_SIZE..(i + 1) * Self::COMPACT_BATCH_SIZE]
                    .iter()
                    .copied()
                    .collect(),
                data_filter,
            )
            .await?;
        }

        self.compact_batch(
            &old_key,
            &new_key,
            new_label,
            &entries_to_compact,
            entry_tokens
                [(entry_tokens.len() / Self::COMPACT_BATCH_SIZE) * Self::COMPACT_BATCH_SIZE..]
                .iter()
                .copied()
                .collect(),
            data_filter,
        )
        .await?;
"""
CHUNKS = """        for batch in entry_tokens.chunks(Self::COMPACT_BATCH_SIZE) {
            self.compact_batch(
                &old_key,
                &new_key,
                new_label,
                &entries_to_compact,
                batch.iter().copied().collect(),
                data_filter,
            )
            .await?;
        }
"""
WHILE = """        let mut start = 0;
        while start < entry_tokens.len() {
            let end = entry_tokens.len().min(start + Self::COMPACT_BATCH_SIZE);
            self.compact_batch(
                &old_key,
                &new_key,
                new_label,
                &entries_to_compact,
                entry_tokens[start..end].iter().copied().collect(),
                data_filter,
            )
            .await?;
            start = end;
        }
"""
REM = """        let remaining_entry_tokens = continuation
            .entries
            .keys()
            .filter(|token| {
                remaining_associations
                    .get(token)
                    .map_or(true, |associated_values| !associated_values.is_empty())
            })
            .copied()
            .collect::<HashSet<_>>();
"""
REM_DROPPED = """        let dropped_entry_tokens = remaining_associations
            .iter()
            .filter(|(_, values)| values.is_empty())
            .map(|(token, _)| *token)
            .collect::<HashSet<_>>();
"""
RV = """        let remaining_values = indexed_values
            .into_iter()
            .map(|(entry_token, associated_values)| {
                let remaining_values = associated_values
                    .into_iter()
                    .filter(|value| {
                        // Filter out obsolete data.
                        value
                            .get_data()
                            .map_or(true, |data| remaining_data.contains(data))
                    })
                    .collect::<HashSet<_>>();
                (entry_token, remaining_values)
            })
            .collect::<HashMap<_, _>>();
"""
RV_LOOP = """        let mut remaining_values = HashMap::with_capacity(indexed_values.len());
        for (entry_token, associated_values) in indexed_values {
            let mut kept = HashSet::new();
            for value in associated_values {
                let obsolete = match &value {
                    IndexedValue::Pointer(_) => false,
                    IndexedValue::Data(data) => !remaining_data.contains(data),
                };
                if !obsolete {
                    kept.insert(value);
                }
            }
            remaining_values.insert(entry_token, kept);
        }
"""
RV_RETAIN = """        let mut remaining_values = indexed_values;
        for values in remaining_values.values_mut() {
            values.retain(|value| match value.get_data() {
                Some(data) => remaining_data.contains(data),
                None => true,
            });
        }
"""
ID = """        let indexed_data = indexed_values
            .values()
            .flatten()
            .filter_map(IndexedValue::get_data)
            .cloned()
            .collect();
"""
ID_LOOP = """        let mut indexed_data = HashSet::new();
        for values in indexed_values.values() {
            for value in values {
                if let IndexedValue::Data(data) = value {
                    indexed_data.insert(data.clone());
                }
            }
        }
"""
META = """        let chain_metadata = entries
            .iter()
            .filter(|(token, _)| compact_target.contains(token))
            .map(|(token, entry)| (*token, self.derive_metadata(entry)))
            .collect::<HashMap<_, _>>();
"""
META_LOOP = """        let mut chain_metadata = HashMap::new();
        for (token, entry) in &entries {
            if !compact_target.contains(token) {
                continue;
            }
            chain_metadata.insert(*token, self.derive_metadata(entry));
        }
"""
M = [
 ("guard-method", "ref", [], [(IX, GUARD, "let unchanged = old_label == new_label && old_key == new_key;\n        if unchanged {")]),
 ("guard-nested", "ref", [], [(IX, GUARD, "if !(old_key != new_key || old_label != new_label) {")]),
 ("guard-bytes", "ref", [], [(IX, GUARD, "if old_key.as_bytes() == new_key.as_bytes() && old_label.as_ref() as &[u8] == new_label.as_ref() as &[u8] {")]),
 ("guard-or", "bug", ["P20"], [(IX, GUARD, "if (old_key == new_key) || (old_label == new_label) {")]),
 ("guard-key-only", "bug", ["P20"], [(IX, GUARD, "if old_key == new_key {")]),
 ("guard-label-len", "bug", ["P20"], [(IX, GUARD, "if (old_key == new_key) && (old_label.len() == new_label.len()) {")]),
 ("guard-prefix", "bug", ["P20"], [(IX, GUARD, "if (old_key.as_bytes()[..8] == new_key.as_bytes()[..8]) && (old_label == new_label) {")]),
 ("guard-rate", "bug", ["P20"], [(IX, GUARD, "if (old_key == new_key) && (old_label == new_label) && compacting_rate > 0.0 {")]),
 ("guard-nonempty-label", "bug", ["P20"], [(IX, GUARD, "if (old_key == new_key) && (old_label == new_label) && !new_label.is_empty() {")]),
 ("guard-zero-rate-noop", "bug", ["P20"], [(IX, GUARD, "if compacting_rate <= 0.0 { return Ok(()); }\n        " + GUARD)]),
 ("chunks", "ref", [], [(IX, BLOCKS, CHUNKS)]),
 ("while", "ref", [], [(IX, BLOCKS, WHILE)]),
 ("chunks-exact", "bug", ["P33"], [(IX, BLOCKS, CHUNKS.replace(".chunks(", ".chunks_exact("))]),
 ("no-rest-when-big", "bug", ["P33"], [(IX, BLOCKS, BLOCKS.replace("        self.compact_batch(\n            &old_key,\n            &new_key,\n            new_label,\n            &entries_to_compact,\n            entry_tokens\n", "        if entry_tokens.len() > Self::COMPACT_BATCH_SIZE { return Ok(()); }\n        self.compact_batch(\n            &old_key,\n            &new_key,\n            new_label,\n            &entries_to_compact,\n            entry_tokens\n"))]),
 ("blocks-off", "bug", ["P33"], [(IX, "for i in 0..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {", "for i in 1..entry_tokens.len() / Self::COMPACT_BATCH_SIZE {")]),
 ("rest-off", "bug", ["P33"], [(IX, "[(entry_tokens.len() / Self::COMPACT_BATCH_SIZE) * Self::COMPACT_BATCH_SIZE..]\n                .iter()\n", "[(entry_tokens.len() / Self::COMPACT_BATCH_SIZE) * Self::COMPACT_BATCH_SIZE..]\n                .iter()\n                .skip(usize::from(entry_tokens.len() > Self::COMPACT_BATCH_SIZE))\n")]),
 ("only-selected", "bug", ["P33"], [(IX, "[(entry_tokens.len() / Self::COMPACT_BATCH_SIZE) * Self::COMPACT_BATCH_SIZE..]\n                .iter()\n", "[(entry_tokens.len() / Self::COMPACT_BATCH_SIZE) * Self::COMPACT_BATCH_SIZE..]\n                .iter()\n                .filter(|t| entries_to_compact.contains(t))\n"), (IX, "            .select_random_tokens(\n                self.get_compact_line_number(entry_tokens.len(), compacting_rate),\n                entry_tokens.as_slice(),\n            )\n            .into();", "            .select_random_tokens(\n                self.get_compact_line_number(entry_tokens.len(), compacting_rate),\n                entry_tokens.as_slice(),\n            );\n        let entries_to_compact: Tokens = entries_to_compact.into();")]),
 ("rv-loop", "ref", [], [(IX, RV, RV_LOOP)]),
 ("rv-retain", "ref", [], [(IX, RV, RV_RETAIN)]),
 ("id-loop", "ref", [], [(IX, ID, ID_LOOP)]),
 ("drop-pointers", "bug", ["P32"], [(IX, KEEP, KEEP.replace("map_or(true", "map_or(false"))]),
 ("filter-inverted", "bug", ["P32"], [(IX, KEEP, KEEP.replace("remaining_data.contains", "!remaining_data.contains"))]),
 ("filter-empty-all", "bug", ["P32"], [(IX, KEEP, KEEP.replace("remaining_data.contains(data)", "remaining_data.is_empty() || remaining_data.contains(data)"))]),
 ("filter-skip-empty-data", "bug", ["P32"], [(IX, KEEP, KEEP.replace("remaining_data.contains(data)", "!data.is_empty() && remaining_data.contains(data)"))]),
 ("filter-len", "bug", ["P32"], [(IX, KEEP, KEEP.replace("remaining_data.contains(data)", "data.len() > 64 || remaining_data.contains(data)"))]),
 ("filter-given-part", "bug", ["P32"], [(IX, "            .filter_map(IndexedValue::get_data)\n            .cloned()", "            .filter_map(IndexedValue::get_data)\n            .filter(|d| !d.is_empty())\n            .cloned()")]),
 ("filter-given-one-entry", "bug", ["P32"], [(IX, "            .values()\n            .flatten()\n", "            .values()\n            .take(1000)\n            .flatten()\n")]),
 ("empty-entry-forgotten", "bug", ["P32"], [(IX, "                (entry_token, remaining_values)\n            })\n", "                (entry_token, remaining_values)\n            })\n            .filter(|(_, values)| !values.is_empty())\n")]),
 ("graph-filter-ok", "bug", ["P32"], [(GC, "                    .map(|v| IndexedValue::<Tag, Value>::try_from(v.as_slice()))\n                    .collect::<Result<_, _>>()\n                    .map(|set| (token, set))", "                    .filter_map(|v| IndexedValue::<Tag, Value>::try_from(v.as_slice()).ok().map(Ok))\n                    .collect::<Result<_, crate::error::CoreError>>()\n                    .map(|set| (token, set))")]),
 ("graph-drop-empty", "bug", ["P32"], [(GC, "            .map(|(token, values)| (token, values.iter().map(Into::into).collect()))", "            .map(|(token, values)| (token, values.iter().filter(|v| v.is_pointer() || values.len() > 1).map(Into::into).collect()))")]),
 ("del-op", "bug", ["P32"], [(MMC, ".map(|v| (Operation::Addition, v))", ".map(|v| (if v.is_empty() { Operation::Deletion } else { Operation::Addition }, v))")]),
 ("meta-loop", "ref", [], [(MMC, META, META_LOOP)]),
 ("meta-part", "bug", ["P33"], [(MMC, ".filter(|(token, _)| compact_target.contains(token))", ".filter(|(token, entry)| compact_target.contains(token) && entry.chain_token.is_some())")]),
 ("meta-all", "bug", ["P33"], [(MMC, ".filter(|(token, _)| compact_target.contains(token))", ".filter(|(token, _)| !compact_target.contains(token))")]),
 ("dropped-set", "ref", [], [(MMC, REM, REM_DROPPED), (MMC, "if remaining_entry_tokens.get(&token).is_some() {", "if !dropped_entry_tokens.contains(&token) {")]),
 ("unselected-dropped", "bug", ["P33"], [(MMC, ".map_or(true, |associated_values| !associated_values.is_empty())", ".map_or(false, |associated_values| !associated_values.is_empty())")]),
 ("never-dropped", "bug", ["P33"], [(MMC, ".map_or(true, |associated_values| !associated_values.is_empty())", ".map_or(true, |_| true)")]),
 ("singleton-dropped", "bug", ["P33"], [(MMC, ".map_or(true, |associated_values| !associated_values.is_empty())", ".map_or(true, |associated_values| associated_values.len() > 1)")]),
 ("old-entries-kept", "bug", ["P33"], [(MMC, "                old_entries.insert(token);\n                if remaining_entry_tokens.get(&token).is_some() {", "                if remaining_entry_tokens.get(&token).is_some() {\n                    old_entries.insert(token);")]),
 ("old-links-part", "bug", ["P33"], [(MMC, "            .flat_map(|(_, chain_tokens)| chain_tokens)\n            .copied()\n            .collect();\n\n        debug!(\"Step 2", "            .flat_map(|(_, chain_tokens)| chain_tokens.iter().skip(1))\n            .copied()\n            .collect();\n\n        debug!(\"Step 2")]),
 ("rollback-order", "ref", [], [(MMC, "            self.chain_table.delete(old_links).await?;\n            self.entry_table.delete(old_entries).await?;", "            self.entry_table.delete(old_entries).await?;\n            self.chain_table.delete(old_links).await?;")]),
 ("select-loop", "ref", [], [(IX, "            let index = (rng.next_u64() % tokens.len() as u64) as usize;\n            res.insert(tokens[index]);", "            let drawn = rng.next_u64();\n            let token = &tokens[(drawn % tokens.len() as u64) as usize];\n            res.insert(*token);")]),
]
M += [
 ("while-early-stop", "bug", ["P33"], [(IX, BLOCKS, WHILE.replace("while start < entry_tokens.len()", "while start + 1 < entry_tokens.len()"))]),
 ("while-gap", "bug", ["P33"], [(IX, BLOCKS, WHILE.replace("start = end;", "start = end + 1;"))]),
 ("while-from-one", "bug", ["P33"], [(IX, BLOCKS, WHILE.replace("let mut start = 0;", "let mut start = 1;"))]),
]
