GR, IX = "src/findex_graph/graph.rs", "src/index/mod.rs"
M = [
 # ---------------- refactorings
 ("ref-walk-rec-helper", "ref", [], [(GR, """            if !visited.insert(tag) {
                // Results associated to this tag have already been recovered.
                continue;
            }

            for value in graph.get(tag).into_iter().flatten() {
                match value {
                    IndexedValue::Pointer(child) => to_visit.push(child),
                    IndexedValue::Data(data) => {
                        res.insert(data.clone());
                    }
                }
            }
""", """            if visited.contains(tag) {
                continue;
            }
            visited.insert(tag);

            let Some(values) = graph.get(tag) else { continue };
            for value in values.iter() {
                if let IndexedValue::Pointer(child) = value {
                    to_visit.push(child);
                } else if let IndexedValue::Data(data) = value {
                    res.insert(data.clone());
                }
            }
""")]),
 ("ref-search-loop", "ref", [], [(IX, """        let res = keywords
            .into_iter()
            .map(|tag| {
                let data = self.findex_graph.walk(&graph, &tag, &mut HashSet::new());
                (tag, data)
            })
            .collect();

        Ok(res)
""", """        let mut res = HashMap::new();
        for keyword in keywords {
            let mut visited = HashSet::new();
            let data = self.findex_graph.walk(&graph, &keyword, &mut visited);
            res.insert(keyword, data);
        }

        Ok(res.into_iter().collect())
""")]),
 ("ref-add-helper", "ref", [], [(IX, """        let mut modifications = HashMap::<_, Vec<_>>::new();
        for (value, keywords) in additions {
            for keyword in keywords {
                modifications
                    .entry(keyword)
                    .or_default()
                    .push((Operation::Addition, value.clone()));
            }
        }
""", """        let modifications = Self::group_by_keyword(Operation::Addition, additions);
"""), (IX, """        let mut modifications = HashMap::<_, Vec<_>>::new();
        for (value, keywords) in deletions {
            for keyword in keywords {
                modifications
                    .entry(keyword)
                    .or_default()
                    .push((Operation::Deletion, value.clone()));
            }
        }
""", """        let modifications = Self::group_by_keyword(Operation::Deletion, deletions);
"""), (IX, """    /// Draw `n` tokens at""", """    fn group_by_keyword(
        op: Operation,
        associations: IndexedValueToKeywordsMap,
    ) -> HashMap<Keyword, Vec<(Operation, IndexedValue<Keyword, Data>)>> {
        let mut modifications = HashMap::<Keyword, Vec<_>>::new();
        for (value, keywords) in associations {
            for keyword in keywords {
                if let Some(m) = modifications.get_mut(&keyword) {
                    m.push((op, value.clone()));
                } else {
                    modifications.insert(keyword, vec![(op, value.clone())]);
                }
            }
        }
        modifications
    }

    /// Draw `n` tokens at""")]),
 ("ref-graph-get", "ref", [], [(GR, """            let mut local_graph = HashMap::with_capacity(indexed_values.len());

            tags = HashSet::with_capacity(
                indexed_values
                    .values()
                    .map(std::collections::HashSet::len)
                    .sum(),
            );
            for (tag, values) in indexed_values {
                let entry = local_graph
                    .entry(tag)
                    .or_insert_with(|| HashSet::with_capacity(values.len()));
                for value in values {
                    let value = IndexedValue::<Tag, Value>::try_from(value.as_slice())?;
                    if let IndexedValue::Pointer(child) = &value {
                        if !graph.contains_key(child) {
                            // Marks the pointers to new tags to be searched at the next iteration.
                            tags.insert(child.clone());
                        }
                    }
                    entry.insert(value);
                }
            }

            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;

            if is_interrupted {
                tags = HashSet::new();
            }

            graph.extend(local_graph);
""", """            let mut local_graph = HashMap::new();
            let mut next_tags = HashSet::new();
            for (tag, values) in indexed_values {
                let mut entry = HashSet::new();
                for bytes in values {
                    let value = IndexedValue::<Tag, Value>::try_from(bytes.as_slice())?;
                    match &value {
                        IndexedValue::Pointer(child) if !graph.contains_key(child) => {
                            next_tags.insert(child.clone());
                        }
                        _ => {}
                    }
                    entry.insert(value);
                }
                local_graph.insert(tag, entry);
            }

            let shown = local_graph.clone();
            for (tag, values) in local_graph {
                graph.insert(tag, values);
            }

            match interrupt(shown).await {
                Ok(true) => break,
                Ok(false) => tags = next_tags,
                Err(e) => return Err(Self::Error::Interrupt(e)),
            }
""")]),
 ("ref-graph-filter-later", "ref", [], [(GR, """                        if !graph.contains_key(child) {
                            // Marks the pointers to new tags to be searched at the next iteration.
                            tags.insert(child.clone());
                        }
""", """                        tags.insert(child.clone());
"""), (GR, """            graph.extend(local_graph);
""", """            graph.extend(local_graph);
            tags.retain(|t| !graph.contains_key(t));
""")]),
 ("ref-graph-insert-loop", "ref", [], [(GR, """        let items = items
            .into_iter()
            .map(|(tag, modifications)| {
                let modifications = modifications
                    .into_iter()
                    .map(|(op, value)| (op, (&value).into()))
                    .collect();
                (tag, modifications)
            })
            .collect();

        self.findex_mm.insert(rng, key, items, label).await
""", """        let mut serialized = HashMap::with_capacity(items.len());
        for (tag, modifications) in items {
            let mut list = Vec::with_capacity(modifications.len());
            for (op, value) in modifications {
                list.push((op, Vec::<u8>::from(&value)));
            }
            serialized.insert(tag, list);
        }
        let res = self.findex_mm.insert(rng, key, serialized, label).await?;
        Ok(res)
""")]),
 # ---------------- bugs
 ("shared-visited", "bug", ["P09"], [(IX, """        let res = keywords
            .into_iter()
            .map(|tag| {
                let data = self.findex_graph.walk(&graph, &tag, &mut HashSet::new());
""", """        let visited = &mut HashSet::new();
        let all = keywords.clone().into_iter().collect::<Vec<_>>();
        let res = all
            .iter()
            .map(|tag| {
                let data = self.findex_graph.walk(&graph, tag, visited);
                let tag = tag.clone();
""")]),
 ("pointer-only-empty", "bug", ["P09"], [(GR, "                    IndexedValue::Pointer(child) => to_visit.push(child),", "                    IndexedValue::Pointer(child) if res.len() < 1000 => to_visit.push(child),\n                    IndexedValue::Pointer(_) => {}")]),
 ("drop-empty-result", "bug", ["P09"], [(IX, """                (tag, data)
            })
            .collect();
""", """                (tag, data)
            })
            .filter(|(_, data)| !data.is_empty())
            .collect();
""")]),
 ("interrupt-unwrap-or", "bug", ["P06"], [(GR, """                .await
                .map_err(Self::Error::Interrupt)?;

            if is_interrupted {""", """                .await
                .unwrap_or(true);

            if is_interrupted {""")]),
 ("interrupt-ignored-if-ptr", "bug", ["P11"], [(GR, "            if is_interrupted {", "            if is_interrupted && tags.len() < 100 {")]),
 ("interrupt-break-before-extend", "bug", ["P11"], [(GR, """            if is_interrupted {
                tags = HashSet::new();
            }
""", """            if is_interrupted {
                break;
            }
""")]),
 ("interrupt-shown-all", "bug", ["P11"], [(GR, """            let is_interrupted = interrupt(local_graph.clone())""", """            graph.extend(local_graph.clone());
            let is_interrupted = interrupt(graph.clone())""")]),
 ("interrupt-not-last", "bug", ["P11"], [(GR, """            let is_interrupted = interrupt(local_graph.clone())
                .await
                .map_err(Self::Error::Interrupt)?;
""", """            let is_interrupted = !tags.is_empty()
                && interrupt(local_graph.clone())
                    .await
                    .map_err(Self::Error::Interrupt)?;
""")]),
 ("graph-extend-partial", "bug", ["P09"], [(GR, "            graph.extend(local_graph);", "            for (k, v) in local_graph {\n                graph.entry(k).or_insert_with(HashSet::new).extend(v.into_iter().take(64));\n            }")]),
 ("no-visited-check", "bug", ["P10"], [(GR, "                        if !graph.contains_key(child) {", "                        if graph.len() < 10 || !graph.contains_key(child) {")]),
 ("pointer-skipped-when-self-local", "bug", ["P09"], [(GR, "                        if !graph.contains_key(child) {", "                        if !graph.contains_key(child) && values_len < 4096 {"), (GR, "                for value in values {", "                let values_len = values.len();\n                for value in values {")]),
 ("delete-as-add-pointer", "bug", ["P12"], [(IX, "                    .push((Operation::Deletion, value.clone()));", "                    .push((if value.is_pointer() { Operation::Addition } else { Operation::Deletion }, value.clone()));")]),
 ("add-only-data", "bug", ["P12"], [(IX, """        for (value, keywords) in additions {
            for keyword in keywords {
""", """        for (value, keywords) in additions {
            for keyword in keywords {
                if value.get_pointer() == Some(&keyword) {
                    continue;
                }
""")]),
 ("add-last-wins", "bug", ["P12"], [(IX, """                modifications
                    .entry(keyword)
                    .or_default()
                    .push((Operation::Addition, value.clone()));""", """                modifications.insert(keyword, vec![(Operation::Addition, value.clone())]);""")]),
 ("refetch-window", "bug", ["P10"], [(GR, "        let mut graph = HashMap::with_capacity(tags.len());\n", "        let mut graph = HashMap::with_capacity(tags.len());\n        let mut last = HashSet::new();\n"),
   (GR, "                        if !graph.contains_key(child) {", "                        if !last.contains(child) {"),
   (GR, "            graph.extend(local_graph);", "            last = local_graph.keys().cloned().collect();\n            graph.extend(local_graph);")]),
 ("refetch-lagging", "bug", ["P10"], [(GR, "        let mut graph = HashMap::with_capacity(tags.len());\n", "        let mut graph = HashMap::with_capacity(tags.len());\n        let mut seen = HashSet::new();\n"),
   (GR, "                        if !graph.contains_key(child) {", "                        if !seen.contains(child) {"),
   (GR, "            graph.extend(local_graph);", "            seen.extend(local_graph.keys().filter(|k| graph.contains_key(*k)).cloned());\n            graph.extend(local_graph);")]),
 ("refetch-leaves", "bug", ["P10"], [(GR, "        let mut graph = HashMap::with_capacity(tags.len());\n", "        let mut graph = HashMap::with_capacity(tags.len());\n        let mut seen = HashSet::new();\n"),
   (GR, "                        if !graph.contains_key(child) {", "                        if !seen.contains(child) {"),
   (GR, "            graph.extend(local_graph);", "            seen.extend(local_graph.iter().filter(|(_, v)| v.len() > 1).map(|(k, _)| k.clone()));\n            graph.extend(local_graph);")]),
 ("ref-seen-set", "ref", [], [(GR, "        let mut graph = HashMap::with_capacity(tags.len());\n", "        let mut graph = HashMap::with_capacity(tags.len());\n        let mut seen = HashSet::new();\n"),
   (GR, "                        if !graph.contains_key(child) {", "                        if !seen.contains(child) {"),
   (GR, "            graph.extend(local_graph);", "            seen.extend(local_graph.keys().cloned());\n            graph.extend(local_graph);")]),
 ("ref-seen-when-asked", "ref", [], [(GR, "        let mut graph = HashMap::with_capacity(tags.len());\n", "        let mut graph = HashMap::with_capacity(tags.len());\n        let mut asked = tags.clone();\n"),
   (GR, "                        if !graph.contains_key(child) {", "                        if asked.insert(child.clone()) {")]),
 ("ref-also-this-round", "ref", [], [
   (GR, "            let indexed_values = self.findex_mm.get(key, tags, label).await?;", "            let asked = tags.clone();\n            let indexed_values = self.findex_mm.get(key, tags, label).await?;"),
   (GR, "                        if !graph.contains_key(child) {", "                        if !graph.contains_key(child) && !asked.contains(child) {")]),
]
