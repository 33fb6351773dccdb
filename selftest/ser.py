"""Dev aid: edits of encodings and of the in-memory backend (see run.py)."""
ES = "src/edx/structs.rs"
EM = "src/edx/mod.rs"
GS = "src/findex_graph/structs.rs"
MA = "src/macros.rs"
IS = "src/index/structs.rs"
IVW = """        match value {
            IndexedValue::Pointer(pointer) => {
                let pointer = pointer.as_ref();
                let mut b = Self::with_capacity(pointer.len() + 1);
                b.push(b'w');
                b.extend(pointer);
                b
            }
            IndexedValue::Data(data) => {
                let data = data.as_ref();
                let mut b = Self::with_capacity(data.len() + 1);
                b.push(b'l');
                b.extend(data);
                b
            }
        }"""
IVR = """        match value[0] {
            b'w' => Ok(Self::Pointer(value[1..].to_vec().into())),
            b'l' => Ok(Self::Data(value[1..].to_vec().into())),
            _ =>"""
EVW = """        let mut res = Self::with_capacity(EncryptedValue::<VALUE_LENGTH>::LENGTH);
        res.extend(&value.nonce.0);
        res.extend(&value.ciphertext);
        res.extend(&value.tag);
        res"""
EVCHK = """        if value.len() != Self::LENGTH {"""
WLOOP = """            let mut n = ser.write_leb128_u64(table.len() as u64)?;
            for (k, v) in table.iter() {
                n += ser.write_array(k)?;
                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                n += ser.write_array(&v.nonce.0)?;
                n += ser.write_array(&v.ciphertext)?;
                n += ser.write_array(&v.tag)?;
            }
            Ok(n)"""
RLOOP = """            let mut table = HashMap::new();
            for _ in 0..n {
                let k = de.read_array::<{ Token::LENGTH }>()?;
                // The size of the value is written for each value.
                let _ = de.read_leb128_u64()?;
                let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                let tag = de.read_array::<MAC_LENGTH>()?;
                table.insert(
                    Token::from(k),
                    EncryptedValue {
                        ciphertext,
                        tag,
                        nonce,
                    },
                );
            }
"""
M = [
 # ---- refactorings
 ("iv-concat", "ref", [], [(GS, IVW, """        let (tag, bytes) = match value {
            IndexedValue::Pointer(pointer) => (b'w', pointer.as_ref()),
            IndexedValue::Data(data) => (b'l', data.as_ref()),
        };
        [&[tag], bytes].concat()""")]),
 ("iv-split", "ref", [], [(GS, """        if value.is_empty() {
            return Err(Self::Error::Conversion(
                "indexed values should be at least one byte long".to_string(),
            ));
        }
        // TODO: change the leading value in v.7
        match value[0] {
            b'w' => Ok(Self::Pointer(value[1..].to_vec().into())),
            b'l' => Ok(Self::Data(value[1..].to_vec().into())),
            _ => Err(Self::Error::Conversion(format!(
                "indexed value should start by {} or {}, not `{}`",
                b'w', b'l', &value[0]
            ))),
        }""", """        // TODO: change the leading value in v.7
        match value.split_first() {
            Some((&b'w', bytes)) => Ok(Self::Pointer(bytes.to_vec().into())),
            Some((&b'l', bytes)) => Ok(Self::Data(bytes.to_vec().into())),
            Some((b, _)) => Err(Self::Error::Conversion(format!(
                "indexed value should start by {} or {}, not `{}`",
                b'w', b'l', b
            ))),
            None => Err(Self::Error::Conversion(
                "indexed values should be at least one byte long".to_string(),
            )),
        }""")]),
 ("iv-slicepat", "ref", [], [(GS, """        // TODO: change the leading value in v.7
        match value[0] {
            b'w' => Ok(Self::Pointer(value[1..].to_vec().into())),
            b'l' => Ok(Self::Data(value[1..].to_vec().into())),
            _ =>""", """        let bytes = value[1..].to_vec();
        // TODO: change the leading value in v.7
        match value[0] {
            b'w' => Ok(Self::Pointer(bytes.into())),
            b'l' => Ok(Self::Data(bytes.into())),
            _ =>""")]),
 ("ev-concat", "ref", [], [(ES, EVW, """        [&value.nonce.0[..], &value.ciphertext, &value.tag].concat()""")]),
 ("ev-push", "ref", [], [(ES, EVW, """        let mut res = Self::new();
        res.extend_from_slice(value.nonce.as_bytes());
        res.extend_from_slice(&value.ciphertext);
        res.extend_from_slice(&value.tag);
        res""")]),
 ("ev-splitat", "ref", [], [(ES, """        let nonce = Nonce::try_from_slice(&value[..NONCE_LENGTH])?;
        let ciphertext =
            <[u8; VALUE_LENGTH]>::try_from(&value[NONCE_LENGTH..NONCE_LENGTH + VALUE_LENGTH])
                .map_err(|e| Self::Error::Conversion(e.to_string()))?;
        let tag = <[u8; MAC_LENGTH]>::try_from(&value[NONCE_LENGTH + VALUE_LENGTH..])
            .map_err(|e| Self::Error::Conversion(e.to_string()))?;""", """        let (nonce, value) = value.split_at(NONCE_LENGTH);
        let (ciphertext, tag) = value.split_at(VALUE_LENGTH);
        let nonce = Nonce::try_from_slice(nonce)?;
        let ciphertext = <[u8; VALUE_LENGTH]>::try_from(ciphertext)
            .map_err(|e| Self::Error::Conversion(e.to_string()))?;
        let tag = <[u8; MAC_LENGTH]>::try_from(tag)
            .map_err(|e| Self::Error::Conversion(e.to_string()))?;""")]),
 ("ev-copy", "ref", [], [(ES, """        let nonce = Nonce::try_from_slice(&value[..NONCE_LENGTH])?;
        let ciphertext =
            <[u8; VALUE_LENGTH]>::try_from(&value[NONCE_LENGTH..NONCE_LENGTH + VALUE_LENGTH])
                .map_err(|e| Self::Error::Conversion(e.to_string()))?;
        let tag = <[u8; MAC_LENGTH]>::try_from(&value[NONCE_LENGTH + VALUE_LENGTH..])
            .map_err(|e| Self::Error::Conversion(e.to_string()))?;""", """        let nonce = Nonce::try_from_slice(&value[..NONCE_LENGTH])?;
        let mut ciphertext = [0; VALUE_LENGTH];
        ciphertext.copy_from_slice(&value[NONCE_LENGTH..][..VALUE_LENGTH]);
        let mut tag = [0; MAC_LENGTH];
        tag.copy_from_slice(&value[Self::LENGTH - MAC_LENGTH..]);""")]),
 ("db-values-order", "ref", [], [(EM, WLOOP, """            let mut n = ser.write_leb128_u64(table.len() as u64)?;
            for (k, v) in table.iter() {
                n += ser.write_array(k)?;
                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                for part in [v.nonce.0.as_slice(), v.ciphertext.as_slice(), v.tag.as_slice()] {
                    n += ser.write_array(part)?;
                }
            }
            Ok(n)""")]),
 ("db-tryfold", "ref", [], [(EM, WLOOP, """            let n = ser.write_leb128_u64(table.len() as u64)?;
            table.iter().try_fold(n, |n, (k, v)| {
                Ok(n + ser.write_array(k)?
                    + ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?
                    + ser.write_array(&v.nonce.0)?
                    + ser.write_array(&v.ciphertext)?
                    + ser.write_array(&v.tag)?)
            })""")]),
 ("db-helper", "ref", [], [(EM, RLOOP, """            let mut table = HashMap::new();
            for _ in 0..n {
                let (k, v) = Self::read_row(de)?;
                table.insert(k, v);
            }
"""), (EM, """    impl<const VALUE_LENGTH: usize> InMemoryDb<VALUE_LENGTH> {
""", """    impl<const VALUE_LENGTH: usize> InMemoryDb<VALUE_LENGTH> {
        #[cfg(feature = "in_memory")]
        fn read_row(
            de: &mut cosmian_crypto_core::bytes_ser_de::Deserializer,
        ) -> Result<(Token, EncryptedValue<VALUE_LENGTH>), InMemoryDbError> {
            let k = Token::from(de.read_array::<{ Token::LENGTH }>()?);
            let _ = de.read_leb128_u64()?;
            Ok((
                k,
                EncryptedValue {
                    nonce: Nonce::from(de.read_array::<NONCE_LENGTH>()?),
                    ciphertext: de.read_array::<VALUE_LENGTH>()?,
                    tag: de.read_array::<MAC_LENGTH>()?,
                },
            ))
        }

""")]),
 ("db-collect", "ref", [], [(EM, RLOOP, """            let table = (0..n)
                .map(|_| {
                    let k = de.read_array::<{ Token::LENGTH }>()?;
                    // The size of the value is written for each value.
                    let _ = de.read_leb128_u64()?;
                    let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                    let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                    let tag = de.read_array::<MAC_LENGTH>()?;
                    Ok((
                        Token::from(k),
                        EncryptedValue {
                            ciphertext,
                            tag,
                            nonce,
                        },
                    ))
                })
                .collect::<Result<HashMap<_, _>, InMemoryDbError>>()?;
""")]),
 ("db-len-check", "ref", [], [(EM, "                let _ = de.read_leb128_u64()?;\n", """                if de.read_leb128_u64()? as usize != EncryptedValue::<VALUE_LENGTH>::LENGTH {
                    return Err(InMemoryDbError("wrong length".to_string()));
                }
""")]),
 ("db-length-sum", "ref", [], [(EM, "to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)", "n * Token::LENGTH + to_leb128_len(n) + (value_length + to_leb128_len(value_length)) * n")]),
 ("bytes-into", "ref", [], [(MA, "                Self(bytes.to_vec())\n", "                Self(bytes.into())\n")]),
 ("bytes-collect", "ref", [], [(MA, "                Self(bytes.to_vec())\n", "                Self(bytes.iter().copied().collect())\n")]),
 ("tokens-collect", "ref", [], [(ES, "        Self(HashSet::from_iter(iter))", "        Self(iter.into_iter().collect())")]),
 ("tok-match", "ref", [], [(ES, """        <[u8; TOKEN_LENGTH]>::try_from(value)
            .map_err(|_| {
                CoreError::Conversion(format!(
                    "cannot create token from {} bytes, {TOKEN_LENGTH} expected",
                    value.len(),
                ))
            })
            .map(Into::into)""", """        if value.len() == TOKEN_LENGTH {
            let mut bytes = [0; TOKEN_LENGTH];
            bytes.copy_from_slice(value);
            Ok(Self(bytes))
        } else {
            Err(CoreError::Conversion(format!(
                "cannot create token from {} bytes, {TOKEN_LENGTH} expected",
                value.len(),
            )))
        }""")]),
 # ---- bugs
 ("iv-swap", "bug", ["P22"], [(GS, "b'w' => Ok(Self::Pointer(value[1..].to_vec().into())),\n            b'l' => Ok(Self::Data(", "b'w' | b'p' => Ok(Self::Pointer(value[1..].to_vec().into())),\n            b'l' | b'L' | 0..=31 => Ok(Self::Data(")]),
 ("iv-empty", "bug", ["P22"], [(GS, "if value.is_empty() {", "if value.len() < 2 {")]),
 ("iv-trim", "bug", ["P22"], [(GS, "                b.push(b'l');\n                b.extend(data);", "                b.push(b'l');\n                b.extend(data.iter().take(u16::MAX as usize));")]),
 ("iv-trim2", "bug", ["P22"], [(GS, "b'l' => Ok(Self::Data(value[1..].to_vec().into())),", "b'l' => Ok(Self::Data(value[1..].trim_ascii_end().to_vec().into())),")]),
 ("iv-skip-zero", "bug", ["P22"], [(GS, "b'l' => Ok(Self::Data(value[1..].to_vec().into())),", "b'l' => Ok(Self::Data(value[1..value.len().min(4096)].to_vec().into())),")]),
 ("ev-order", "bug", ["P22"], [(ES, EVW, EVW.replace("""        res.extend(&value.ciphertext);
        res.extend(&value.tag);
""", """        res.extend(&value.tag);
        res.extend(&value.ciphertext);
"""))]),
 ("ev-lenient", "bug", ["P22"], [(ES, EVCHK, "        if value.len() < Self::LENGTH {")]),
 ("ev-lenient2", "bug", ["P22"], [(ES, EVCHK, "        if value.len() < Self::LENGTH {"), (ES, "&value[NONCE_LENGTH + VALUE_LENGTH..])", "&value[NONCE_LENGTH + VALUE_LENGTH..Self::LENGTH])")]),
 ("ev-tag-end", "bug", ["P22"], [(ES, "&value[NONCE_LENGTH + VALUE_LENGTH..])", "&value[VALUE_LENGTH - MAC_LENGTH + NONCE_LENGTH..NONCE_LENGTH + VALUE_LENGTH])")]),
 ("db-order", "bug", ["P22"], [(EM, """                let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                let tag""", """                let ciphertext = de.read_array::<VALUE_LENGTH>()?;
                let nonce = Nonce::from(de.read_array::<NONCE_LENGTH>()?);
                let tag""")]),
 ("db-nolen", "bug", ["P22"], [(EM, "                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;\n", "")]),
 ("db-len-once", "bug", ["P22"], [(EM, "                let _ = de.read_leb128_u64()?;\n", "                if table.is_empty() {\n                    let _ = de.read_leb128_u64()?;\n                }\n")]),
 ("db-swallow", "bug", ["P22"], [(EM, "                let tag = de.read_array::<MAC_LENGTH>()?;", "                let Ok(tag) = de.read_array::<MAC_LENGTH>() else { break };")]),
 ("db-swallow2", "bug", ["P22"], [(EM, "                let _ = de.read_leb128_u64()?;\n", "                let _ = de.read_leb128_u64();\n")]),
 ("db-number", "bug", ["P22"], [(EM, "            for _ in 0..n {\n", "            for _ in 0..n.min(1 << 20) {\n")]),
 ("db-number2", "bug", ["P22"], [(EM, "ser.write_leb128_u64(table.len() as u64)?;", "ser.write_leb128_u64(u64::from(table.len() as u32))?;")]),
 ("db-length", "bug", ["P22"], [(EM, "to_leb128_len(n) + n * (Token", "1 + n * (Token")]),
 ("db-length2", "bug", ["P22"], [(EM, "to_leb128_len(n) + n * (Token::LENGTH + to_leb128_len(value_length) + value_length)", "to_leb128_len(n) + n * (Token::LENGTH + value_length)")]),
 ("db-keep-first", "bug", ["P22"], [(EM, """                table.insert(
                    Token::from(k),
                    EncryptedValue {
                        ciphertext,
                        tag,
                        nonce,
                    },
                );
""", """                if tag != [0; MAC_LENGTH] {
                table.insert(
                    Token::from(k),
                    EncryptedValue {
                        ciphertext,
                        tag,
                        nonce,
                    },
                );
                }
""")]),
 ("bytes-trim", "bug", ["P22"], [(MA, "                Self(bytes.to_vec())\n", "                Self(bytes.trim_ascii().to_vec())\n")]),
 ("bytes-lower", "bug", ["P22"], [(MA, "                bytes.as_bytes().into()\n", "                bytes.to_lowercase().as_bytes().into()\n")]),
 ("bytes-trunc", "bug", ["P22"], [(MA, "                Self(bytes.to_vec())\n", "                Self(bytes[..bytes.len().min(1024)].to_vec())\n")]),
 ("kw-skip-empty", "bug", ["P22"], [(IS, "    fn from_iter<T: IntoIterator<Item = Keyword>>(iter: T) -> Self {\n        Self(HashSet::from_iter(iter))", "    fn from_iter<T: IntoIterator<Item = Keyword>>(iter: T) -> Self {\n        Self(iter.into_iter().filter(|k| !k.is_empty()).collect())")]),
 ("tokens-take", "bug", ["P22"], [(ES, "        Self(HashSet::from_iter(iter))", "        Self(iter.into_iter().take(1 << 20).collect())")]),
 ("deref-off", "bug", ["P22"], [(ES, """    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl From<Token> for""", """    fn deref(&self) -> &Self::Target {
        &self.0[..TOKEN_LENGTH - 1]
    }
}

impl From<Token> for""")]),
]
