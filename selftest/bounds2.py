"""Searches which stop too early, and searches which do not."""
GR = "src/findex_graph/graph.rs"
W = "        while !tags.is_empty() {\n            let indexed_values"
P = "        while let Some(tag) = to_visit.pop() {\n"
M = [
 ("b2-loop-len", "ref", [], [(GR, W, "        loop {\n            if tags.len() == 0 {\n                break;\n            }\n            let indexed_values")]),
 ("b2-round-count", "ref", [], [(GR, W, "        let mut rounds = 0usize;\n        while !tags.is_empty() {\n            rounds += 1;\n            tracing::trace!(\"round {rounds}\");\n            let indexed_values")]),
 ("b2-break-end", "ref", [], [(GR, "            graph.extend(local_graph);\n        }\n\n        Ok(graph)", "            graph.extend(local_graph);\n            if tags.is_empty() {\n                break;\n            }\n        }\n\n        Ok(graph)")]),
 ("b2-break-interrupt", "ref", [], [(GR, "            if is_interrupted {\n                tags = HashSet::new();\n            }\n\n            graph.extend(local_graph);\n", "            graph.extend(local_graph);\n            if is_interrupted {\n                break;\n            }\n")]),
 ("b2-return-interrupt", "ref", [], [(GR, "            if is_interrupted {\n                tags = HashSet::new();\n            }\n\n            graph.extend(local_graph);\n", "            graph.extend(local_graph);\n            if is_interrupted {\n                return Ok(graph);\n            }\n")]),
 ("b2-walk-loop", "ref", [], [(GR, P, "        loop {\n            let tag = match to_visit.pop() {\n                Some(tag) => tag,\n                None => break,\n            };\n")]),
 ("b2-walk-queue", "ref", [], [(GR, "        let mut to_visit = vec![entry];", "        let mut to_visit = std::collections::VecDeque::from([entry]);"), (GR, "to_visit.pop()", "to_visit.pop_front()"), (GR, "to_visit.push(child)", "to_visit.push_back(child)")]),
 ("b2-walk-check-push", "ref", [], [(GR, "                    IndexedValue::Pointer(child) => to_visit.push(child),", "                    IndexedValue::Pointer(child) => {\n                        if !visited.contains(child) {\n                            to_visit.push(child);\n                        }\n                    }")]),
 # ---- bugs
 ("b2-rounds-for", "bug", ["P09"], [(GR, W, "        for _ in 0..100 {\n            if tags.is_empty() {\n                break;\n            }\n            let indexed_values")]),
 ("b2-rounds-size", "bug", ["P09"], [(GR, "            graph.extend(local_graph);\n", "            graph.extend(local_graph);\n            if graph.len() > 10_000 {\n                break;\n            }\n")]),
 ("b2-rounds-same", "bug", ["P09"], [(GR, "            graph.extend(local_graph);\n", "            let before = graph.len();\n            graph.extend(local_graph);\n            if graph.len() == before {\n                break;\n            }\n")]),
 ("b2-walk-size", "bug", ["P09"], [(GR, P, P + "            if res.len() > 10_000 {\n                break;\n            }\n")]),
 ("b2-walk-steps", "bug", ["P09"], [(GR, P, "        for _ in 0..10_000 {\n            let tag = match to_visit.pop() {\n                Some(tag) => tag,\n                None => break,\n            };\n")]),
 ("b2-walk-visited", "bug", ["P09"], [(GR, P, P + "            if visited.len() > 10_000 {\n                return res;\n            }\n")]),
 ("b2-walk-fanout", "bug", ["P09"], [(GR, "graph.get(tag).into_iter().flatten()", "graph.get(tag).into_iter().flatten().take(10_000)")]),
 ("b2-walk-depth", "bug", ["P09"], [(GR, "                    IndexedValue::Pointer(child) => to_visit.push(child),", "                    IndexedValue::Pointer(child) => {\n                        if to_visit.len() < 1_000 {\n                            to_visit.push(child);\n                        }\n                    }")]),
]
