S = "src/edx/structs.rs"
E = "src/edx/entry_table.rs"
C = "src/edx/chain_table.rs"
MM = "src/findex_mm/mm.rs"
CP = "src/findex_mm/compact.rs"
X = "src/index/mod.rs"
IS = "src/index/structs.rs"
M = [
 # ---- edits which keep the behaviour
 ("enc-buffer", "ref", [], [(S, """        let mut res = Self {
            ciphertext: value,
            nonce: Nonce::from([0; NONCE_LENGTH]),
            tag: [0; MAC_LENGTH],
        };
        rng.fill_bytes(&mut res.nonce.0);
        let aead = Aes256Gcm::new(key);
        let tag = aead
            .encrypt_in_place_detached(&res.nonce, &mut res.ciphertext, None)
            .map_err(CoreError::CryptoCore)?;
        res.tag.copy_from_slice(tag.as_slice());
        Ok(res)""", """        let mut ciphertext = value;
        let mut nonce_bytes = [0; NONCE_LENGTH];
        rng.fill_bytes(&mut nonce_bytes);
        let nonce = Nonce::from(nonce_bytes);
        let mac = match Aes256Gcm::new(key).encrypt_in_place_detached(&nonce, &mut ciphertext, None) {
            Ok(mac) => mac,
            Err(e) => return Err(CoreError::CryptoCore(e)),
        };
        let mut tag = [0; MAC_LENGTH];
        tag.copy_from_slice(mac.as_slice());
        Ok(Self { ciphertext, tag, nonce })""")]),
 ("nonce-new", "ref", [], [(S, """            nonce: Nonce::from([0; NONCE_LENGTH]),
            tag: [0; MAC_LENGTH],
        };
        rng.fill_bytes(&mut res.nonce.0);""", """            nonce: Nonce::new(rng),
            tag: [0; MAC_LENGTH],
        };"""), (S, "FixedSizeCBytes, Instantiable,", "FixedSizeCBytes, Instantiable, ")]),
 ("derive-helper", "ref", [], [(E, """        let mut kmac_key = SymmetricKey::default();
        kdf256!(
            &mut *kmac_key,
            seed.as_ref(),
            ENTRY_TABLE_KEY_DERIVATION_INFO,
            b"KMAC key"
        );
        let mut aead_key = SymmetricKey::default();
        kdf256!(
            &mut *aead_key,
            seed.as_ref(),
            ENTRY_TABLE_KEY_DERIVATION_INFO,
            b"DEM key"
        );
        Self::Key {
            token: kmac_key,
            value: aead_key,
        }""", """        let derive = |usage: &[u8]| {
            let mut key = SymmetricKey::default();
            kdf256!(&mut *key, seed.as_ref(), ENTRY_TABLE_KEY_DERIVATION_INFO, usage);
            key
        };
        Self::Key {
            value: derive(b"DEM key"),
            token: derive(b"KMAC key"),
        }""")]),
 ("tokenize-match", "ref", [], [(E, """        if let Some(label) = label {
            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()
        } else {
            kmac!(TOKEN_LENGTH, &key.token, bytes, &[]).into()
        }""", """        let suffix: &[u8] = label.map_or(&[], |l| l.as_ref());
        Token::from(kmac!(TOKEN_LENGTH, &key.token, bytes, suffix))""")]),
 ("resolve-q", "ref", [], [(C, "        encrypted_value.decrypt(&key.value).map_err(Error::from)", "        let value = encrypted_value.decrypt(&key.value)?;\n        Ok(value)")]),
 ("hash-helper", "ref", [], [(MM, """                let mut tag_hash = [0; HASH_LENGTH];
                let mut hasher = Sha3::v256();
                hasher.update(tag.as_ref());
                hasher.finalize(&mut tag_hash);
                (self.entry_table.tokenize(key, &tag_hash, Some(label)), tag)""", """                let tag_hash = hash_tag(&tag);
                (self.entry_table.tokenize(key, &tag_hash, Some(label)), tag)"""),
   (MM, """                let mut tag_hash = [0; HASH_LENGTH];
                let mut hasher = Sha3::v256();
                hasher.update(tag.as_ref());
                hasher.finalize(&mut tag_hash);
                (
                    tag,""", """                let tag_hash = hash_tag(tag);
                (
                    tag,"""),
   (MM, "#[async_trait(?Send)]\nimpl<", """fn hash_tag<Tag: AsRef<[u8]>>(tag: &Tag) -> [u8; HASH_LENGTH] {
    let mut digest = [0; HASH_LENGTH];
    let mut hasher = Sha3::v256();
    hasher.update(tag.as_ref());
    hasher.finalize(&mut digest);
    digest
}

#[async_trait(?Send)]
impl<""")]),
 # ---- bugs
 ("nonce-partial", "bug", ["P13"], [(S, "rng.fill_bytes(&mut res.nonce.0);", "rng.fill_bytes(&mut res.nonce.0[..8]);")]),
 ("nonce-zero", "bug", ["P13"], [(S, "rng.fill_bytes(&mut res.nonce.0);", "let _ = rng;")]),
 ("nonce-from-value", "bug", ["P13"], [(S, "rng.fill_bytes(&mut res.nonce.0);", "rng.fill_bytes(&mut res.nonce.0); for i in 0..NONCE_LENGTH { res.nonce.0[i] = value[i]; }")]),
 ("seed-rng", "bug", ["P13"], [(MM, """                        &mut *rng.lock().expect("could not lock mutex"),
                        &chain_key,
                        link.0,""", """                        &mut <cosmian_crypto_core::CsRng as cosmian_crypto_core::reexport::rand_core::SeedableRng>::seed_from_u64(7),
                        &chain_key,
                        link.0,""")]),
 ("seed-from-hash", "bug", ["P13"], [(MM, """                        seed: self
                            .chain_table
                            .gen_seed(&mut *rng.lock().expect("could not lock mutex")),""", """                        seed: {
                            let mut seed = ChainTable::Seed::default();
                            seed.as_mut().copy_from_slice(&tag_hash[..SEED_LENGTH]);
                            seed
                        },""")]),
 ("new-fixed-rng", "bug", ["P13"], [(X, "CsRng::from_entropy()", "CsRng::seed_from_u64(42)")]),
 ("compact-keeps-seed", "bug", ["P13"], [(CP, "Entry::new(self.chain_table.gen_seed(rng), old_entry.tag_hash, None)", "Entry::new({ let _ = &rng; let mut s = ChainTable::Seed::default(); s.as_mut().copy_from_slice(old_entry.seed.as_ref()); s }, old_entry.tag_hash, None)")]),
 ("store-plain", "bug", ["P14"], [(S, """            .encrypt_in_place_detached(&res.nonce, &mut res.ciphertext, None)
            .map_err(CoreError::CryptoCore)?;
        res.tag""", """            .encrypt_in_place_detached(&res.nonce, &mut res.ciphertext, None)
            .map_err(CoreError::CryptoCore)?;
        if VALUE_LENGTH % 2 == 0 { res.ciphertext[VALUE_LENGTH - 1] = value[VALUE_LENGTH - 1]; }
        res.tag""")]),
 ("token-plain-hash", "bug", ["P14", "P17"], [(E, "            kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()", """            {
                let _ = (label, key);
                <Token as TryFrom<&[u8]>>::try_from(bytes).expect("32 bytes")
            }""")]),
 ("link-entry-key", "bug", ["P14"], [(E, "Self::EncryptedValue::encrypt(rng, &key.value, value)", "Self::EncryptedValue::encrypt(rng, &key.token, value)"), (E, "encrypted_value.decrypt(&key.value)", "encrypted_value.decrypt(&key.token)")]),
 ("decrypt-ignore", "bug", ["P15"], [(S, """        aead.decrypt_in_place_detached(&self.nonce, &mut res, &self.tag, None)
            .map_err(CoreError::CryptoCore)?;
        Ok(res)""", """        let _ = aead.decrypt_in_place_detached(&self.nonce, &mut res, &self.tag, None);
        Ok(res)""")]),
 ("decrypt-zero-tag", "bug", ["P15"], [(S, """            .map_err(CoreError::CryptoCore)?;
        Ok(res)
    }
}""", """            .or_else(|e| if self.tag == [0; MAC_LENGTH] { Ok(()) } else { Err(e) })
            .map_err(CoreError::CryptoCore)?;
        Ok(res)
    }
}""")]),
 ("skip-bad-rows", "bug", ["P15"], [(MM, """                .map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link))
                .collect::<Result<Vec<_>, _>>()?;

            indexed_values""", """                .filter_map(|ciphertext| self.chain_table.resolve(&chain_key, ciphertext).map(Link).ok())
                .collect::<Vec<_>>();

            indexed_values""")]),
 ("same-info", "bug", ["P16"], [(C, 'CHAIN_TABLE_KEY_DERIVATION_INFO,\n            b"DEM key"', 'CHAIN_TABLE_KEY_DERIVATION_INFO,\n            b"KMAC key"')]),
 ("same-table-info", "bug", ["P16"], [(C, 'b"Chain Table key derivation info."', 'b"Entry Table key derivation info."')]),
 ("short-seed", "bug", ["P16"], [(E, """            &mut *aead_key,
            seed.as_ref(),""", """            &mut *aead_key,
            &seed.as_ref()[..8],""")]),
 ("tag-prefix", "bug", ["P17"], [(MM, """                hasher.update(tag.as_ref());
                hasher.finalize(&mut tag_hash);
                (self""", """                hasher.update(&tag.as_ref()[..tag.as_ref().len().min(64)]);
                hasher.finalize(&mut tag_hash);
                (self"""), (MM, """                hasher.update(tag.as_ref());
                hasher.finalize(&mut tag_hash);
                (
""", """                hasher.update(&tag.as_ref()[..tag.as_ref().len().min(64)]);
                hasher.finalize(&mut tag_hash);
                (
""")]),
 ("no-label", "bug", ["P17"], [(E, "kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()", "{ let _ = label; kmac!(TOKEN_LENGTH, &key.token, bytes, &[]).into() }")]),
 ("no-label-mm", "bug", ["P17"], [(MM, "self.entry_table.tokenize(key, &tag_hash, Some(label)), tag)", "self.entry_table.tokenize(key, &tag_hash, None), tag)"), (MM, "self.entry_table.tokenize(key, &tag_hash, Some(label)),\n", "{ let _ = label; self.entry_table.tokenize(key, &tag_hash, None) },\n")]),
 ("bytes-trunc", "bug", ["P17"], [(E, "kmac!(TOKEN_LENGTH, &key.token, bytes, label).into()", "kmac!(TOKEN_LENGTH, &key.token, &bytes[..16], label).into()")]),
]
