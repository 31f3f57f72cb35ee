F = "apps/tablet_cache/service/src/transaction/metadata.rs"
CASES = [
 ("exclusive range", F, [(".range(*key_hash..)", ".range(*key_hash + 1..)")], {"C20"}),
 ("last instead of first", F, [(".or(fresh_tablet_ids.first())", ".or(fresh_tablet_ids.last())")], {"C20"}),
 ("range to", F, [(".range(*key_hash..)", ".range(..=*key_hash)")], {"C20"}),
 ("cursor before flush", F, [("                    if tablet_id != curr_tablet_id {\n                        if !curr_key_hashes.is_empty() {", "                    if tablet_id != curr_tablet_id {\n                        curr_tablet_id = tablet_id;\n                        if !curr_key_hashes.is_empty() {")], {"C20"}),
 ("key before flush", F, [("                    if tablet_id != curr_tablet_id {\n", "                    curr_key_hashes.push(*key_hash);\n                    if tablet_id != curr_tablet_id {\n"), ("                        curr_tablet_id = tablet_id;\n                    }\n                    curr_key_hashes.push(*key_hash);\n", "                        curr_tablet_id = tablet_id;\n                    }\n")], {"C20"}),
 ("no flush on change", F, [("                        if !curr_key_hashes.is_empty() {\n                            resolve_result.push((\n                                table_query.create_from(mem::take(&mut curr_key_hashes)),\n                                self.tablets.get(&curr_tablet_id).unwrap().clone(),\n                            ));\n                        }\n", "")], {"C20"}),
 ("flush when more than one", F, [("                        if !curr_key_hashes.is_empty() {\n                            resolve_result", "                        if curr_key_hashes.len() > 1 {\n                            resolve_result")], {"C20"}),
 ("group not taken", F, [("                            resolve_result.push((\n                                table_query.create_from(mem::take(&mut curr_key_hashes)),", "                            resolve_result.push((\n                                table_query.create_from(curr_key_hashes.clone()),")], {"C20"}),
 ("last group dropped", F, [("                if !curr_key_hashes.is_empty() {\n                    resolve_result.push((\n                        table_query.create_from(mem::take(&mut curr_key_hashes)),\n                        self.tablets", "                if resolve_result.is_empty() {\n                    resolve_result.push((\n                        table_query.create_from(mem::take(&mut curr_key_hashes)),\n                        self.tablets")], {"C20"}),
 ("change by less", F, [("if tablet_id != curr_tablet_id {", "if tablet_id > curr_tablet_id {")], {"C20"}),
 ("split ge", F, [("while *key_hash > region_end {", "while *key_hash >= region_end {")], {"C20"}),
 ("split if", F, [("while *key_hash > region_end {", "if *key_hash > region_end {")], {"C20"}),
 ("split flush after idx", F, [("                region_idx += 1;\n                (region_start", "                (region_start"), ("            while *key_hash > region_end {\n", "            while *key_hash > region_end {\n                region_idx += 1;\n")], {"C20"}),
 ("split last dropped", F, [("        if !region_key_hashes.is_empty() {\n            result.push((query.create_from(region_key_hashes), region_idx));\n        }\n", "        if region_key_hashes.len() > 1 {\n            result.push((query.create_from(region_key_hashes), region_idx));\n        }\n")], {"C20"}),
 ("region bounds at split", F, [("            region_start + region_size - 1\n", "            region_start + region_size\n")], {"C20", "C22"}),
 ("region map rounding", F, [("        hash_value / region_size\n", "        (hash_value + 1) / region_size\n")], {"C20", "C22", "C23", "C21"}),
 ("stale ids used", F, [("            TableRegionState::Stale(_, _) => None,\n            TableRegionState::Fresh => Some(&self.tablet_ids),", "            TableRegionState::Stale(_, _) if self.tablet_ids.is_empty() => None,\n            _ => Some(&self.tablet_ids),"), ("            false,\n        );\n        self.tablet_ids.clear();", "            false,\n        );")], {"C20"}),
 ("wrong query id", F, [("TableQuery::create(self.table_query_id, self.table_name, self.key_hashes)", "TableQuery::create(0, self.table_name, self.key_hashes)")], {"C21"}),
 ("keys not appended", F, [("            result.append_key_hashes(table_query.get_key_hashes());", "            if result.key_hashes.is_empty() {\n                result.append_key_hashes(table_query.get_key_hashes());\n            }")], {"C21"}),
 ("results by tablet only", F, [("                .entry((\n                    table_query.get_table_name().clone(),\n                    tablet_metadata.tablet_id,\n                ))", "                .entry((\n                    String::new(),\n                    tablet_metadata.tablet_id,\n                ))")], {"C21"}),
 ("reports early", F, [("        if self.pending_table_queries.is_empty() {\n            let mut", "        if self.pending_table_queries.len() <= 1 {\n            let mut")], {"C21"}),
 ("never reports at once", F, [("        // Try to produce results if there are no more pending queries.\n        tablet_resolve.maybe_resolve_results();\n", "        if !tablet_resolve.results.is_empty() {\n            tablet_resolve.maybe_resolve_results();\n        }\n")], {"C21"}),
 ("register only first region", F, [("                if pending_table_queries.is_empty() {\n                    table_metadata.register", "                let first = pending_table_queries.is_empty();\n                if first && tablet_resolve.results.is_empty() {\n                    table_metadata.register")], {"C21"}),
 ("id not advanced", F, [("        self.resolve_request_counter += 1;\n", "        if self.resolve_requests.is_empty() {\n            self.resolve_request_counter += 1;\n        }\n")], {"C21"}),
 ("waiters last only", F, [("            for registered_resolve_request in registered_resolve_requests {\n", "            for registered_resolve_request in registered_resolve_requests.last() {\n")], {"C21"}),
 ("waiters after fresh", F, [("        self.state = TableRegionState::Fresh;\n        self.tablet_ids = BTreeSet", "        self.tablet_ids = BTreeSet"), ("    fn mark_fresh(&mut self, tablet_ids: Vec<u32>, resolve_requests_to_notify: &mut Vec<u64>) {\n", "    fn mark_fresh(&mut self, tablet_ids: Vec<u32>, resolve_requests_to_notify: &mut Vec<u64>) {\n        self.state = TableRegionState::Fresh;\n")], {"C21"}),
 ("one waiter per region", F, [("                                        table_region_idx,\n                                        table_metadata,\n                                    );\n", "                                        table_region_idx,\n                                        table_metadata,\n                                    );\n                                    break;\n")], {"C21"}),
 ("pending query overwritten", F, [("                pending_table_queries.push(table_query);", "                *pending_table_queries = vec![table_query];")], {"C21"}),
 ("pending only first", F, [("                if pending_table_queries.is_empty() {\n                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);\n                }\n                pending_table_queries.push(table_query);", "                if pending_table_queries.is_empty() {\n                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);\n                    pending_table_queries.push(table_query);\n                }")], {"C21"}),
 ("list without waiters", F, [("if !*prepared_op && !resolve_requests.is_empty() {", "if !*prepared_op {")], {"C22"}),
 ("list again and again", F, [("                *prepared_op = true;\n", "")], {"C22"}),
 ("list prepared when demanded more", F, [("if !*prepared_op && !resolve_requests.is_empty() {", "if !*prepared_op && resolve_requests.len() > 1 {")], {"C22"}),
 ("failed list keeps flag", F, [("                TableRegionState::Fresh => Vec::new(),\n            },\n            false,", "                TableRegionState::Fresh => Vec::new(),\n            },\n            true,")], {"C22", "C23"}),
 ("failed list drops waiters", F, [("TableRegionState::Stale(resolve_requests, _) => mem::take(resolve_requests),", "TableRegionState::Stale(_, _) => Vec::new(),")], {"C22", "C23"}),
 ("failure ignored", F, [("                table_region.mark_stale();\n            }\n        }\n        (table", "                let _ = table_region;\n            }\n        }\n        (table")], {"C22"}),
 ("failure as success", F, [("list_op_result.status == TabletOpStatus::Succeeded as i32;", "list_op_result.status != TabletOpStatus::Unspecified as i32;")], {"C22"}),
 ("ids appended", F, [("        self.tablet_ids = BTreeSet::from_iter(tablet_ids.into_iter());", "        self.tablet_ids.extend(tablet_ids.into_iter());")], {"C22"}),
 ("last region bound", F, [("if region_start > u32::MAX - region_size {", "if region_start >= u32::MAX - region_size {")], {"C22"}),
 ("last region short", F, [("            u32::MAX\n        } else", "            u32::MAX - 1\n        } else")], {"C22"}),
 ("regions exclusive", F, [("for region_idx in 0..=last_region_idx {", "for region_idx in 0..last_region_idx {")], {"C22"}),
 ("regions fresh at start", F, [("            state: TableRegionState::Stale(Vec::new(), false),\n            tablet_ids: BTreeSet::new(),", "            state: TableRegionState::Stale(Vec::new(), true),\n            tablet_ids: BTreeSet::new(),")], {"C22"}),
 ("one table", F, [("            table_metadata.prepare_list_op(&mut list_ops);\n", "            table_metadata.prepare_list_op(&mut list_ops);\n            if !list_ops.is_empty() {\n                break;\n            }\n")], {"C22"}),
 ("correlation not advanced", F, [("            self.correlation_counter += 1;\n            self.out", "            self.out")], {"C22"}),
 ("version le", F, [("if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {", "if latest_tablet_metadata.tablet_version <= tablet_metadata.tablet_version {")], {"C23"}),
 ("always replaced", F, [("if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {", "if true {")], {"C23"}),
 ("list inserts directly", F, [("                    Self::insert_latest_tablet(&mut self.tablets, tablet_metadata);\n                }\n                // Mark", "                    self.tablets.insert(tablet_metadata.tablet_id, tablet_metadata);\n                }\n                // Mark")], {"C23"}),
 ("stale without conflict", F, [("            if conflict {\n                table_region.mark_stale();\n            }", "            let _ = conflict;\n            table_region.mark_stale();")], {"C23"}),
 ("conflict ignored", F, [("            if conflict {\n                table_region.mark_stale();\n            }", "            if conflict && self.tablets.len() > 1 {\n                table_region.mark_stale();\n            }")], {"C23"}),
 # behaviour kept
 ("r: extract lookup", F, [("                    let tablet_id = *fresh_tablet_ids\n                        .range(*key_hash..)\n                        .next()\n                        .or(fresh_tablet_ids.first())\n                        .unwrap();", "                    let tablet_id = Self::owner(fresh_tablet_ids, *key_hash);"), ("    fn map_table_region(", "    fn owner(ids: &BTreeSet<u32>, key: u32) -> u32 {\n        match ids.range(key..).next() {\n            Some(id) => *id,\n            None => *ids.first().unwrap(),\n        }\n    }\n\n    fn map_table_region(")], None),
 ("r: or_else", F, [(".or(fresh_tablet_ids.first())", ".or_else(|| fresh_tablet_ids.first())")], None),
 ("r: flush helper", F, [("                            resolve_result.push((\n                                table_query.create_from(mem::take(&mut curr_key_hashes)),\n                                self.tablets.get(&curr_tablet_id).unwrap().clone(),\n                            ));\n", "                            self.flush(&mut resolve_result, table_query, curr_tablet_id, &mut curr_key_hashes);\n"), ("    fn map_table_region(", "    fn flush(&self, out: &mut Vec<(TableQuery, TabletMetadata)>, q: &TableQuery, id: u32, keys: &mut Vec<u32>) {\n        out.push((q.create_from(mem::take(keys)), self.tablets.get(&id).unwrap().clone()));\n    }\n\n    fn map_table_region(")], None),
 ("r: extend waiters", F, [("            for registered_resolve_request in registered_resolve_requests {\n                resolve_requests_to_notify.push(*registered_resolve_request);\n            }", "            resolve_requests_to_notify.extend(registered_resolve_requests.iter().copied());")], None),
 ("r: collect ids", F, [("BTreeSet::from_iter(tablet_ids.into_iter())", "tablet_ids.into_iter().collect()")], None),
 ("r: match version", F, [("                if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {\n                    *latest_tablet_metadata = tablet_metadata;\n                }", "                if tablet_metadata.tablet_version > latest_tablet_metadata.tablet_version {\n                    e.insert(tablet_metadata);\n                }")], None),
 ("r: get then insert", F, [("        match tablets.entry(tablet_metadata.tablet_id) {\n            Entry::Occupied(mut e) => {\n                let latest_tablet_metadata = e.get_mut();\n                if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {\n                    *latest_tablet_metadata = tablet_metadata;\n                }\n            }\n            Entry::Vacant(mut e) => {\n                e.insert(tablet_metadata);\n            }\n        }", "        if let Some(known) = tablets.get(&tablet_metadata.tablet_id) {\n            if known.tablet_version >= tablet_metadata.tablet_version {\n                return;\n            }\n        }\n        tablets.insert(tablet_metadata.tablet_id, tablet_metadata);")], None),
 ("r: early return", F, [("            if conflict {\n                table_region.mark_stale();\n            }", "            if !conflict {\n                return;\n            }\n            table_region.mark_stale();")], None),
 ("r: saturating bound", F, [("        let region_end = if region_start > u32::MAX - region_size {\n            u32::MAX\n        } else {\n            region_start + region_size - 1\n        };", "        let region_end = region_start.saturating_add(region_size - 1);")], None),
 ("r: iter map results", F, [("            let mut results = Vec::new();\n            for (_, tablet_resolve_result) in mem::take(&mut self.results) {\n                results.push(tablet_resolve_result.take_result());\n            }", "            let results: Vec<_> = mem::take(&mut self.results)\n                .into_values()\n                .map(|r| r.take_result())\n                .collect();")], None),
 ("r: drain keys", F, [("        for key_hash in key_hashes {\n            self.key_hashes.push(*key_hash);\n        }", "        self.key_hashes.extend(key_hashes.iter());")], None),
 ("r: loop for while", F, [("            while *key_hash > region_end {\n", "            loop {\n                if *key_hash <= region_end {\n                    break;\n                }\n")], None),
 ("r: op let", F, [("            if !*prepared_op && !resolve_requests.is_empty() {\n", "            let wanted = !resolve_requests.is_empty();\n            if wanted && !*prepared_op {\n")], None),
 ("r: if let pending", F, [("        for pending_table_query in self\n            .pending_table_queries\n            .remove(&(table_name.clone(), table_region_idx))\n            .unwrap_or_default()\n        {", "        let key = (table_name.clone(), table_region_idx);\n        let pending = self.pending_table_queries.remove(&key).unwrap_or_default();\n        for pending_table_query in pending {")], None),
 ("r: status match", F, [("                                    if op_succeeded {\n                                        Some(list_tablet_result.tablets)\n                                    } else {\n                                        None\n                                    },", "                                    op_succeeded.then_some(list_tablet_result.tablets),")], None),
 ("r: mark stale match", F, [("        self.state = TableRegionState::Stale(\n            match &mut self.state {\n                TableRegionState::Stale(resolve_requests, _) => mem::take(resolve_requests),\n                TableRegionState::Fresh => Vec::new(),\n            },\n            false,\n        );\n", "        let waiting = if let TableRegionState::Stale(requests, _) = &mut self.state {\n            mem::take(requests)\n        } else {\n            Vec::new()\n        };\n        self.state = TableRegionState::Stale(waiting, false);\n")], None),
 ("r: mark stale in place", F, [("        self.state = TableRegionState::Stale(\n            match &mut self.state {\n                TableRegionState::Stale(resolve_requests, _) => mem::take(resolve_requests),\n                TableRegionState::Fresh => Vec::new(),\n            },\n            false,\n        );\n", "        match &mut self.state {\n            TableRegionState::Stale(_, prepared) => *prepared = false,\n            TableRegionState::Fresh => self.state = TableRegionState::Stale(Vec::new(), false),\n        }\n")], None),
]
