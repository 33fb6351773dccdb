"""Breakages and refactorings of the table layer."""
E = "src/edx/entry_table.rs"
C = "src/edx/chain_table.rs"
UPS = """        self.0
            .upsert(old_values.into(), new_values.into())
            .await
            .map_err(Self::Error::from)
            .map(Into::into)"""
INS = """        self.0
            .insert(items.into())
            .await
            .map_err(Error::DbInterface)
"""
EDEL = """        self.0
            .delete(items.into())
            .await
            .map_err(Self::Error::DbInterface)"""
CDEL = """        self.0
            .delete(items.into())
            .await
            .map_err(Error::DbInterface)"""
EGET = """        self.0
            .fetch(tokens.into())
            .await
            .map_err(Self::Error::from)
            .map(Into::into)"""
DUMP = """        self.0
            .dump_tokens()
            .await
            .map_err(Error::DbInterface)
            .map(Into::into)"""
M = [
 ("t-upsert-match", "ref", [], [(E, UPS, """        match self.0.upsert(old_values.into(), new_values.into()).await {
            Ok(rejected) => Ok(HashMap::from(rejected)),
            Err(e) => Err(Error::DbInterface(e)),
        }""")]),
 ("t-insert-q", "ref", [], [(E, INS, """        let rows = items.into();
        self.0.insert(rows).await?;
        Ok(())
"""), (C, INS, """        let res = self.0.insert(items.into()).await;
        if let Err(e) = res {
            return Err(Error::DbInterface(e));
        }
        Ok(())
""")]),
 ("t-get-loop", "ref", [], [(E, EGET, """        let fetched = self.0.fetch(tokens.into()).await?;
        let mut rows = Vec::new();
        for (token, row) in fetched {
            rows.push((token, row));
        }
        Ok(rows)""")]),
 ("t-dump-let", "ref", [], [(E, DUMP, """        let tokens = self.0.dump_tokens().await?;
        Ok(tokens.into_iter().collect())""")]),
 ("t-delete-let", "ref", [], [(E, EDEL, """        let n = items.len();
        tracing::trace!("deleting {n} entries");
        self.0.delete(items.into()).await?;
        Ok(())"""), (C, CDEL, """        self.0.delete(items.into()).await.map_err(|e| Error::DbInterface(e))""")]),
 # ---- bugs
 ("t-upsert-retry", "bug", ["P03", "P04"], [(E, UPS, """        let mut new_values = new_values;
        let rejected: HashMap<Token, Self::EncryptedValue> = self
            .0
            .upsert(old_values.into(), new_values.clone().into())
            .await
            .map(Into::into)?;
        if rejected.len() < 2 {
            return Ok(rejected);
        }
        new_values.retain(|token, _| rejected.contains_key(token));
        self.0
            .upsert(rejected.into(), new_values.into())
            .await
            .map_err(Self::Error::from)
            .map(Into::into)""")]),
 ("t-insert-swallow", "bug", ["P06"], [(C, INS, """        let n = items.len();
        let res = self.0.insert(items.into()).await.map_err(Error::DbInterface);
        if n == 0 { Ok(()) } else { res }
""")]),
 ("t-delete-swallow", "bug", ["P06"], [(C, CDEL, """        if let Err(e) = self.0.delete(items.into()).await {
            tracing::warn!("could not delete: {e}");
        }
        Ok(())""")]),
 ("t-insert-masked", "bug", ["P06"], [(E, INS, """        self.0
            .insert(items.into())
            .await
            .map_err(|_| Error::Crypto("could not insert".to_string()))
""")]),
 ("t-insert-undo", "bug", ["P02", "P03", "P05", "P08"], [(C, INS, """        let tokens: HashSet<Token> = items.keys().copied().collect();
        if let Err(e) = self.0.insert(items.into()).await {
            self.0.delete(tokens.into()).await?;
            return Err(Error::DbInterface(e));
        }
        Ok(())
""")]),
 ("t-get-chunks", "bug", ["P03", "P09", "P18"], [(E, EGET, """        let tokens: HashSet<Token> = tokens.into_iter().take(1024).collect();
        self.0
            .fetch(tokens.into())
            .await
            .map_err(Self::Error::from)
            .map(Into::into)""")]),
 ("t-get-dedup", "bug", ["P03", "P21"], [(E, EGET, """        let rows: HashMap<_, _> = self.0.fetch(tokens.into()).await?.into_iter().collect();
        Ok(rows.into_iter().collect())""")]),
 ("t-dump-some", "bug", ["P03", "P33"], [(E, DUMP, """        self.0
            .dump_tokens()
            .await
            .map_err(Error::DbInterface)
            .map(|tokens| tokens.into_iter().take(1 << 20).collect())""")]),
 ("t-delete-empty", "bug", ["P03", "P07"], [(E, EDEL, """        if items.len() > 1 << 16 {
            return Ok(());
        }
        self.0
            .delete(items.into())
            .await
            .map_err(Self::Error::DbInterface)""")]),
]
