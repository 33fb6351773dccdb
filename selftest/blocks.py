"""Breakages and refactorings of the splitting of values into blocks."""
import os
_ns = {}
exec(compile(open(os.path.join("/verif/selftest", "refs2.py")).read(), "refs2", "exec"), _ns)
MM = _ns["MM"]
_OLD, _NEW = [x for x in _ns["M"] if x[0] == "decomp-helper"][0][3][0][1:]


def _m(*reps):
    s = _NEW
    for a, b in reps:
        assert a in s, a
        s = s.replace(a, b)
    return [(MM, _OLD, s)]


M = [
 ("k-never", "bug", ["P34"], _m(("0..=full", "0..full"))),
 ("k-early", "bug", ["P34"], _m(("let is_last = i == full_block_number", "let is_last = i + 1 == full_block_number"))),
 ("k-flag", "bug", ["P34"], _m(("is_last)?", "i + 1 == full_block_number)?"))),
 ("k-end", "bug", ["P34"], _m(("if is_last { value.len() } else { (i + 1) * BLOCK_LENGTH }", "if is_last { value.len() } else { i * BLOCK_LENGTH }"))),
 ("k-skip-empty-last", "bug", ["P34"], _m(("let is_last = i == full_block_number;", "let is_last = i == full_block_number;\n                if is_last && value.len() == i * BLOCK_LENGTH && i != 0 { break; }"))),
 ("k-lost", "bug", ["P34"], _m(("chain.push(std::mem::replace(&mut link, Link::new()));", "let full = std::mem::replace(&mut link, Link::new());\n                    if !is_last || chain.is_empty() { chain.push(full); }"))),
 ("k-order", "bug", ["P34"], _m(("for i in 0..=full_block_number {", "for i in (0..=full_block_number).rev() {"))),
 ("k-match", "ref", [], _m(("let end = if is_last { value.len() } else { (i + 1) * BLOCK_LENGTH };", "let start = i * BLOCK_LENGTH;\n                let end = match is_last { true => value.len(), false => start + BLOCK_LENGTH };"), ("i * BLOCK_LENGTH..end", "start..end"))),
 ("k-lt", "ref", [], _m(("let is_last = i == full_block_number;", "let is_last = !(i < full_block_number);"))),
 ("k-excl", "ref", [], _m(("0..=full_block_number", "0..full_block_number + 1"))),
 ("k-min", "ref", [], _m(("let end = if is_last { value.len() } else { (i + 1) * BLOCK_LENGTH };", "let end = value.len().min((i + 1) * BLOCK_LENGTH);"))),
 ("k-two-calls", "ref", [], _m(("                link.set_block(pos, &value[i * BLOCK_LENGTH..end], is_last)?;\n", "                if is_last {\n                    link.set_block(pos, &value[i * BLOCK_LENGTH..], true)?;\n                } else {\n                    link.set_block(pos, &value[i * BLOCK_LENGTH..end], false)?;\n                }\n"))),
]
