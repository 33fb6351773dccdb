"""Dev aid: edits of the block and link code (see run.py)."""
MM = "src/findex_mm/mm.rs"
ST = "src/findex_mm/structs.rs"
INNER = """            for i in 0..full_block_number {
                link.set_operation(pos, *operation)?;
                link.set_block(pos, &value[i * BLOCK_LENGTH..(i + 1) * BLOCK_LENGTH], false)?;
                pos += 1;
                if pos == LINE_LENGTH {
                    chain.push(link);
                    link = Link::new();
                    pos = 0;
                }
            }
"""
LASTB = """            link.set_operation(pos, *operation)?;
            link.set_block(pos, &value[full_block_number * BLOCK_LENGTH..], true)?;
            pos += 1;
            if pos == LINE_LENGTH {
                chain.push(link);
                link = Link::new();
                pos = 0;
            }
        }
"""
PUSHL = """        if pos != 0 {
            chain.push(link);
        }

        Ok(chain)"""
TERM = """                    let mut findex_value =
                        Vec::with_capacity(stack.len() * BLOCK_LENGTH + data.len());
                    for block_data in stack {
                        findex_value.extend(block_data);
                    }
                    findex_value.extend(data);
"""
MIX = """                if current_operation.is_some() && current_operation.as_ref() != Some(&operation) {"""
ADD = """                    if Operation::Addition == operation {
                        indexed_values.insert(findex_value);
                    } else {
                        indexed_values.remove(&findex_value);
                    }
"""
GB = """        let block = &self.0[(1 + pos * (BLOCK_LENGTH + 1))..=((pos + 1) * (BLOCK_LENGTH + 1))];
        if block[0] == 255 {
            Ok((false, &block[1..]))
        } else {
            Ok((true, &block[1..=usize::from(block[0])]))
        }"""
SB = """        let block = &mut self.0[(1 + pos * (BLOCK_LENGTH + 1))..=((pos + 1) * (BLOCK_LENGTH + 1))];
        if is_terminating {
            block[0] = u8::try_from(data.len())?;
        } else {
            block[0] = 255;
        }
        block[1..=data.len()].copy_from_slice(data);
        Ok(())"""
M = [
 # ---- refactorings
 ("chunks-exact", "ref", [], [(MM, INNER, """            for i in 0..full_block_number {
                let block = &value[i * BLOCK_LENGTH..][..BLOCK_LENGTH];
                link.set_block(pos, block, false)?;
                link.set_operation(pos, *operation)?;
                pos += 1;
                if pos >= LINE_LENGTH {
                    chain.push(std::mem::take(&mut link));
                    pos = 0;
                }
            }
""" ), (ST, "impl Deref for Link {", """impl Default for Link {
    fn default() -> Self {
        Self::new()
    }
}

impl Deref for Link {""")]),
 ("op-first", "ref", [], [(MM, """                let (is_terminating, data) = ct_value.get_block(pos)?;
                let operation = ct_value.get_operation(pos)?;
""", """                let operation = ct_value.get_operation(pos)?;
                let (is_terminating, data) = ct_value.get_block(pos)?;
""")]),
 ("acc-bytes", "ref", [], [(MM, TERM, """                    let mut findex_value = std::mem::take(&mut stack);
                    findex_value.extend_from_slice(data);
"""), (MM, """                    current_operation = None;
                    stack = Vec::new();
                } else {
                    stack.push(data);
""", """                    current_operation = None;
                } else {
                    stack.extend_from_slice(data);
"""), (MM, "let mut stack = Vec::new();\n        let mut current", "let mut stack: Vec<u8> = Vec::new();\n        let mut current")]),
 ("concat", "ref", [], [(MM, TERM, """                    stack.push(data);
                    let findex_value = stack.concat();
""")]),
 ("match-op", "ref", [], [(MM, ADD, """                    match operation {
                        Operation::Addition => {
                            indexed_values.insert(findex_value);
                        }
                        Operation::Deletion => {
                            indexed_values.remove(&findex_value);
                        }
                    }
""")]),
 ("helper-add", "ref", [], [(MM, LASTB, """            Self::add_block(&mut chain, &mut link, &mut pos, *operation, &value[full_block_number * BLOCK_LENGTH..], true)?;
        }
"""), (MM, INNER, """            for i in 0..full_block_number {
                Self::add_block(&mut chain, &mut link, &mut pos, *operation, &value[i * BLOCK_LENGTH..(i + 1) * BLOCK_LENGTH], false)?;
            }
"""), (MM, "    /// Decomposes the given Findex index modifications into a sequence of Chain", """    fn add_block(
        chain: &mut Vec<Link>,
        link: &mut Link,
        pos: &mut usize,
        operation: Operation,
        data: &[u8],
        is_terminating: bool,
    ) -> Result<(), CoreError> {
        link.set_operation(*pos, operation)?;
        link.set_block(*pos, data, is_terminating)?;
        *pos += 1;
        if *pos == LINE_WIDTH {
            chain.push(std::mem::replace(link, Link::new()));
            *pos = 0;
        }
        Ok(())
    }

    /// Decomposes the given Findex index modifications into a sequence of Chain""")]),
 ("while-pos", "ref", [], [(MM, "            for pos in 0..LINE_LENGTH {\n                let (is_t", "            let mut next = 0;\n            while next < LINE_LENGTH {\n                let pos = next;\n                next += 1;\n                let (is_t")]),
 ("split-at", "ref", [], [(ST, SB, """        let start = 1 + pos * (BLOCK_LENGTH + 1);
        self.0[start] = if is_terminating {
            u8::try_from(data.len())?
        } else {
            255
        };
        self.0[start + 1..start + 1 + data.len()].copy_from_slice(data);
        Ok(())""")]),
 ("get-start", "ref", [], [(ST, GB, """        let start = 1 + pos * (BLOCK_LENGTH + 1);
        let length = self.0[start];
        let is_terminating = length != 255;
        let length = if is_terminating { usize::from(length) } else { BLOCK_LENGTH };
        Ok((is_terminating, &self.0[start + 1..start + 1 + length]))""")]),
 ("op-mask", "ref", [], [(ST, "if (self.0[0] >> pos) & 1 == 1 {", "if self.0[0] & (1 << pos) != 0 {")]),
 ("op-match", "ref", [], [(ST, """        if Operation::Addition == op {
            self.0[0] |= 1 << pos;
        }
""", """        match op {
            Operation::Addition => self.0[0] |= 1 << pos,
            Operation::Deletion => self.0[0] &= !(1 << pos),
        }
""")]),
 ("chunks-iter", "ref", [], [(MM, INNER, """            for block in value.chunks_exact(BLOCK_LENGTH) {
                link.set_operation(pos, *operation)?;
                link.set_block(pos, block, false)?;
                pos += 1;
                if pos == LINE_LENGTH {
                    chain.push(link);
                    link = Link::new();
                    pos = 0;
                }
            }
""")]),
 ("chunks-rem", "ref", [], [(MM, INNER, """            let mut blocks = value.chunks_exact(BLOCK_LENGTH);
            for block in &mut blocks {
                link.set_operation(pos, *operation)?;
                link.set_block(pos, block, false)?;
                pos += 1;
                if pos == LINE_LENGTH {
                    chain.push(link);
                    link = Link::new();
                    pos = 0;
                }
            }
            let rest = blocks.remainder();
"""), (MM, "&value[full_block_number * BLOCK_LENGTH..], true", "rest, true"), (MM, "            let full_block_number = value.len() / BLOCK_LENGTH;\n", "")]),
 ("split-last", "ref", [], [(MM, INNER, """            let (full, rest) = value.split_at(full_block_number * BLOCK_LENGTH);
            for i in 0..full_block_number {
                link.set_operation(pos, *operation)?;
                link.set_block(pos, &full[i * BLOCK_LENGTH..(i + 1) * BLOCK_LENGTH], false)?;
                pos += 1;
                if pos == LINE_LENGTH {
                    chain.push(link);
                    link = Link::new();
                    pos = 0;
                }
            }
"""), (MM, "&value[full_block_number * BLOCK_LENGTH..], true", "rest, true")]),
 # ---- bugs
 ("no-wrap", "bug", ["P34"], [(MM, INNER, INNER.replace("if pos == LINE_LENGTH {", "if pos > LINE_LENGTH {"))]),
 ("empty-rest", "bug", ["P34"], [(MM, LASTB, """            if value.len() % BLOCK_LENGTH != 0 {
            link.set_operation(pos, *operation)?;
            link.set_block(pos, &value[full_block_number * BLOCK_LENGTH..], true)?;
            pos += 1;
            }
            if pos == LINE_LENGTH {
                chain.push(link);
                link = Link::new();
                pos = 0;
            }
        }
""")]),
 ("rest-trunc", "bug", ["P34"], [(MM, "&value[full_block_number * BLOCK_LENGTH..], true", "&value[full_block_number * BLOCK_LENGTH..value.len().min(full_block_number * BLOCK_LENGTH + BLOCK_LENGTH - 1)], true")]),
 ("last-lost", "bug", ["P34"], [(MM, PUSHL, PUSHL.replace("pos != 0", "pos > 1"))]),
 ("inner-op", "bug", ["P34"], [(MM, INNER, INNER.replace("*operation)", "Operation::Addition)"))]),
 ("dirty-link", "bug", ["P34"], [(MM, INNER, INNER.replace("chain.push(link);\n                    link = Link::new();", "chain.push(Link(link.0));"))]),
 ("stop-empty", "bug", ["P34"], [(MM, "                if current_operation.is_some()", "                if is_terminating && data.is_empty() {\n                    break;\n                }\n\n                if current_operation.is_some()")]),
 ("skip-empty", "bug", ["P34"], [(MM, "                if current_operation.is_some()", "                if data.is_empty() {\n                    continue;\n                }\n\n                if current_operation.is_some()")]),
 ("stack-kept", "bug", ["P34"], [(MM, "for block_data in stack {", "for block_data in &stack {"), (MM, "findex_value.extend(block_data);", "findex_value.extend(*block_data);"), (MM, "                    current_operation = None;\n                    stack = Vec::new();", "                    current_operation = None;\n                    if Operation::Addition == operation {\n                        stack = Vec::new();\n                    }")]),
 ("rev-stack", "bug", ["P34"], [(MM, "for block_data in stack {", "for block_data in stack.into_iter().rev() {")]),
 ("rev-chain", "bug", ["P34"], [(MM, "for ct_value in chain {", "for ct_value in chain.iter().rev() {")]),
 ("no-mixed", "bug", ["P34"], [(MM, MIX, "                if false && current_operation.is_some() && current_operation.as_ref() != Some(&operation) {")]),
 ("del-multi", "bug", ["P34"], [(MM, ADD, ADD.replace("                    } else {", "                    } else if current_operation.is_none() {"))]),
 ("first-links", "bug", ["P34"], [(MM, "for ct_value in chain {", "for ct_value in chain.iter().take(255) {")]),
 ("pos-short", "bug", ["P34"], [(MM, "            for pos in 0..LINE_LENGTH {\n                let (is_t", "            for pos in 0..LINE_LENGTH - 1 {\n                let (is_t")]),
 ("marker", "bug", ["P23"], [(ST, "if block[0] == 255 {", "if block[0] >= 16 {")]),
 ("marker-w", "bug", ["P23"], [(ST, "            block[0] = 255;", "            block[0] = 254;")]),
 ("data-off", "bug", ["P23"], [(ST, "Ok((true, &block[1..=usize::from(block[0])]))", "Ok((true, &block[1..usize::from(block[0]).max(1)]))")]),
 ("stride", "bug", ["P23"], [(ST, SB, SB.replace("(1 + pos * (BLOCK_LENGTH + 1))", "(1 + pos * BLOCK_LENGTH)"))]),
 ("op-shift", "bug", ["P23"], [(ST, "if (self.0[0] >> pos) & 1 == 1 {", "if (self.0[0] >> (pos % 4)) & 1 == 1 {")]),
 ("op-assign", "bug", ["P23"], [(ST, "self.0[0] |= 1 << pos;", "self.0[0] = 1 << pos;")]),
 ("op-xor", "bug", ["P23"], [(ST, "        if Operation::Addition == op {\n            self.0[0] |= 1 << pos;\n        }", "        if Operation::Addition == op && pos < 4 {\n            self.0[0] |= 1 << pos;\n        }")]),
 ("zero-block", "bug", ["P23"], [(ST, "            block[0] = u8::try_from(data.len())?;", "            block[0] = u8::try_from(data.len().max(1))?;")]),
 ("take-255", "bug", ["P34"], [(MM, "for block_data in stack {", "for block_data in stack.into_iter().take(255) {")]),
 ("skip-empty", "bug", ["P34"], [(MM, "for block_data in stack {", "for block_data in stack.into_iter().filter(|b: &&[u8]| b[0] != 0) {")]),
 ("stack-window", "bug", ["P34"], [(MM, "stack.push(data);", "stack.push(data);\n                    if stack.len() > 255 { stack.remove(0); }")]),
 ("stack-truncate", "bug", ["P34"], [(MM, "stack.push(data);", "stack.push(data);\n                    stack.truncate(255);")]),
 ("iter-concat", "ref", [], [(MM, "for block_data in stack {\n                        findex_value.extend(block_data);\n                    }", "findex_value.extend(stack.iter().flat_map(|b: &&[u8]| b.iter()));")]),
]
