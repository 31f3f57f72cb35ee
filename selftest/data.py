F = "apps/tablet_cache/service/src/transaction/data.rs"
CASES = [
 ("version not raised", F, [("tablet_metadata.tablet_version += 1;\n", "")], {"C10"}),
 ("version raised by two", F, [("tablet_metadata.tablet_version += 1;\n", "tablet_metadata.tablet_version += 2;\n")], {"C10"}),
 ("hash of size", F, [("Sha256::digest(&tablet_contents).to_vec().into();", "Sha256::digest(&tablet_contents.slice(0..tablet_contents.len().min(64))).to_vec().into();")], {"C10"}),
 ("uri before hash", F, [("tablet_metadata.blob_hash = Sha256::digest(&tablet_contents).to_vec().into();\n", ""), ("        Ok(tablet_contents)\n", "        tablet_metadata.blob_hash = Sha256::digest(&tablet_contents).to_vec().into();\n        Ok(tablet_contents)\n")], {"C10"}),
 ("uri without hash", F, [("        URL_SAFE_NO_PAD.encode(&blob_hash)", "        tablet_id")], {"C10"}),
 ("serialise failure skipped", F, [("return create_result_from_error(TabletDataStorageStatus::Failed);", "tablets_contents.push(Bytes::new());")], {"C10"}),
 ("hash only when sizes equal", F, [("if !tablet_metadata.blob_hash.is_empty()\n", "if !tablet_metadata.blob_hash.is_empty() && tablet_contents.len() == tablet_metadata.blob_size as usize\n")], {"C15"}),
 ("hash check dropped", F, [("            return Err(());\n        }\n\n        // Currently", "        }\n\n        // Currently")], {"C15"}),
 ("unspecified status accepted", F, [("Some(TabletDataStorageStatus::Succeeded) => {\n                    if let Ok", "Some(TabletDataStorageStatus::Succeeded) | Some(TabletDataStorageStatus::Unspecified) => {\n                    if let Ok")], {"C15"}),
 ("store failure cached", F, [("                Some(TabletDataStorageStatus::Failed) => {\n                    self.cache_entry_state = TabletCacheEntryState::Error;\n                }\n                _ => {\n                    panic!(\"Unexpected store", "                Some(TabletDataStorageStatus::Failed) => {\n                    self.cache_entry_state = TabletCacheEntryState::Cache(tablet_value.clone());\n                }\n                _ => {\n                    panic!(\"Unexpected store")], {"C15"}),
 ("count while adding", F, [("        self.remaining_cache_entries = cache_entries;\n", "        self.remaining_cache_entries = 0 * cache_entries;\n"), ("    fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {\n", "    fn add_pending_cache_entry(&mut self, tablet_cache_entry: &mut TabletCacheEntry<T>) {\n        self.remaining_cache_entries += 1;\n")], {"C11"}),
 ("completes early", F, [("let has_completed = self.remaining_cache_entries == 0;", "let has_completed = self.remaining_cache_entries <= 1;")], {"C11"}),
 ("flag before decrement", F, [("        self.remaining_cache_entries -= 1;\n        let has_completed = self.remaining_cache_entries == 0;\n", "        let has_completed = self.remaining_cache_entries == 0;\n        self.remaining_cache_entries -= 1;\n")], {"C11"}),
 ("cached not in result", F, [("                loaded_tablets.push((\n                    tablet_cache_entry.get_metadata().clone(),\n                    tablet_value.clone(),\n                ));\n                if has_completed {", "                if !has_completed {\n                loaded_tablets.push((\n                    tablet_cache_entry.get_metadata().clone(),\n                    tablet_value.clone(),\n                ));\n                }\n                if has_completed {")], {"C11"}),
 ("pending store not waited", F, [("TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {\n                tablet_cache_entry.register", "TabletCacheEntryState::Store(_) => {\n                self.resolve_pending_cache_entry(tablet_cache_entry);\n            }\n            TabletCacheEntryState::Load => {\n                tablet_cache_entry.register")], {"C11"}),
 ("waiters not taken", F, [("mem::take(&mut self.tablet_batch_ids)", "self.tablet_batch_ids.clone()")], {"C11"}),
 ("waiters only of cached", F, [("TabletCacheEntryState::Cache(_) | TabletCacheEntryState::Error => {\n                mem::take", "TabletCacheEntryState::Cache(_) => {\n                mem::take")], {"C11"}),
 ("waiters taken always", F, [("            _ => Vec::new(),\n        }\n    }\n\n    fn process_load", "            _ => mem::take(&mut self.tablet_batch_ids),\n        }\n    }\n\n    fn process_load")], {"C11"}),
 ("only one waiter", F, [("                    .resolve_pending_cache_entry(tablet_cache_entry);\n            }\n", "                    .resolve_pending_cache_entry(tablet_cache_entry);\n                break;\n            }\n")], {"C11"}),
 ("retain ready", F, [(".retain(|_, tablet_batch| !tablet_batch.is_ready());", ".retain(|_, tablet_batch| tablet_batch.is_ready());")], {"C11"}),
 ("batch kept only if more than one", F, [("        if !tablet_batch.is_ready() {\n            self.tablet_batches.insert(self.batch_counter, tablet_batch);\n        }\n\n        result_handle\n    }\n\n    fn store", "        if tablet_batch.remaining_cache_entries > 1 {\n            self.tablet_batches.insert(self.batch_counter, tablet_batch);\n        }\n\n        result_handle\n    }\n\n    fn store")], {"C11"}),
 ("batch id reused", F, [("        self.batch_counter += 1;\n        let (mut tablet_batch, result_handle) =\n            TabletBatch::<T>::with_load", "        let (mut tablet_batch, result_handle) =\n            TabletBatch::<T>::with_load")], {"C11"}),
 ("empty batch hangs", F, [("        if cache_entries == 0 {", "        if false {")], {"C11"}),
 ("error does not fail store", F, [("                stored_tablets_source.set_error(TabletDataStorageStatus::Failed);\n                Some(TabletBatchState::Error)", "                if has_completed {\n                    stored_tablets_source.set_error(TabletDataStorageStatus::Failed);\n                    Some(TabletBatchState::Error)\n                } else {\n                    None\n                }")], {"C12"}),
 ("error keeps state", F, [("                loaded_tablets_source.set_error(TabletDataStorageStatus::Failed);\n                Some(TabletBatchState::Error)", "                loaded_tablets_source.set_error(TabletDataStorageStatus::Failed);\n                None")], {"C12"}),
 ("error cleared batch", F, [("                loaded_tablets_source.set_error(TabletDataStorageStatus::Failed);\n                Some(TabletBatchState::Error)", "                if has_completed {\n                    loaded_tablets_source.set_result(mem::take(_l));\n                }\n                None"), ("(TabletCacheEntryState::Error, TabletBatchState::Load(_, loaded_tablets_source)) =>", "(TabletCacheEntryState::Error, TabletBatchState::Load(_l, loaded_tablets_source)) =>")], {"C12"}),
 ("failed entries stay", F, [("            self.tablet_cache_entries.remove(&failed_tablet_cache_key);\n", "            let _ = failed_tablet_cache_key;\n")], {"C12"}),
 ("first failed only", F, [("            self.tablet_cache_entries.remove(&failed_tablet_cache_key);\n", "            self.tablet_cache_entries.remove(&failed_tablet_cache_key);\n            break;\n")], {"C12"}),
 ("failed dropped first", F, [("        let mut failed_tablet_cache_entries = Vec::new();\n", "        let mut failed_tablet_cache_entries: Vec<TabletCacheKey> = Vec::new();\n        self.tablet_cache_entries.retain(|_, e| match e.get_state() { TabletCacheEntryState::Error => false, _ => true });\n")], {"C12"}),
 ("key without id", F, [("            tablet_id: tablet_metadata.tablet_id,\n            uri", "            tablet_id: 0,\n            uri")], {"C13"}),
 ("correlation not advanced", F, [("                self.correlation_counter += 1;\n\n                self.tablet_operations\n                    .insert(self.correlation_counter, tablet_cache_key);\n\n                let (tablet_cache_entry, load", "                self.tablet_operations\n                    .insert(self.correlation_counter, tablet_cache_key);\n\n                let (tablet_cache_entry, load")], {"C13"}),
 ("response not removed", F, [("if let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) {\n                    // Delegate", "if let Some(tablet_cache_key) = self.tablet_operations.get(&correlation_id).cloned() {\n                    // Delegate")], {"C13"}),
 ("load overwrites", F, [("            if let Vacant(map_entry) = self.tablet_cache_entries.entry(tablet_cache_key.clone()) {", "            {"), ("                map_entry.insert(tablet_cache_entry);\n            }\n        }\n\n        self.batch", "                self.tablet_cache_entries.insert(TabletCacheKey::from(tablet_metadata), tablet_cache_entry);\n            }\n        }\n\n        self.batch")], {"C13"}),
 ("request uses previous uri", F, [("                StoreTabletRequest {\n                    blob_uri: tablet_metadata.blob_uri.clone(),", "                StoreTabletRequest {\n                    blob_uri: tablet_metadata.tablet_id.to_string(),")], {"C13"}),
 ("evict all", F, [("    ) -> Vec<TabletCacheKey> {\n        Vec::new()", "    ) -> Vec<TabletCacheKey> {\n        tablet_cache_entries.keys().cloned().collect()")], {"C14"}),
 ("capacity ignored", F, [("            self.config.tablet_cache_capacity,\n            &self", "            u64::MAX,\n            &self")], {"C14"}),
 ("entries cleared on load", F, [("        let mut tablet_cache_keys = Vec::with_capacity(tablets_metadata.len());\n", "        let mut tablet_cache_keys = Vec::with_capacity(tablets_metadata.len());\n        if self.tablet_cache_entries.len() > 1000 { self.tablet_cache_entries.clear(); }\n")], {"C14"}),
 # behaviour preserving
 ("r: match instead of if let vacant", F, [("            if let Vacant(map_entry) = self.tablet_cache_entries.entry(tablet_cache_key.clone()) {\n", "            if !self.tablet_cache_entries.contains_key(&tablet_cache_key) {\n"), ("                map_entry.insert(tablet_cache_entry);\n            }\n        }\n\n        self.batch", "                self.tablet_cache_entries.insert(TabletCacheKey::from(tablet_metadata), tablet_cache_entry);\n            }\n        }\n\n        self.batch")], None),
 ("r: let else", F, [("                if let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) {\n                    // Delegate", "                let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) else {\n                    return;\n                };\n                {\n                    // Delegate")], None),
 ("r: helper next id", F, [("    fn prepare_tablet_write(", "    fn next_id(&mut self) -> u64 {\n        self.correlation_counter += 1;\n        self.correlation_counter\n    }\n\n    fn prepare_tablet_write("), ("                self.correlation_counter += 1;\n\n                self.tablet_operations\n                    .insert(self.correlation_counter, tablet_cache_key);\n\n                let (tablet_cache_entry, load_tablet_request) =\n                    TabletCacheEntry::<T>::with_load_state(\n                        self.correlation_counter,", "                let id = self.next_id();\n                self.tablet_operations\n                    .insert(id, tablet_cache_key);\n\n                let (tablet_cache_entry, load_tablet_request) =\n                    TabletCacheEntry::<T>::with_load_state(\n                        id,"), ("            if let Vacant(map_entry) = self.tablet_cache_entries.entry(tablet_cache_key.clone()) {\n", "            if !self.tablet_cache_entries.contains_key(&tablet_cache_key) {\n"), ("                map_entry.insert(tablet_cache_entry);\n            }\n        }\n\n        self.batch", "                self.tablet_cache_entries.insert(TabletCacheKey::from(tablet_metadata), tablet_cache_entry);\n            }\n        }\n\n        self.batch")], None),
 ("r: nested if hash", F, [("if !tablet_metadata.blob_hash.is_empty()\n            && Sha256::digest(&tablet_contents).as_slice() != tablet_metadata.blob_hash.as_ref()\n        {\n            return Err(());\n        }", "if !tablet_metadata.blob_hash.is_empty() {\n            let actual = Sha256::digest(&tablet_contents);\n            if actual.as_slice() != tablet_metadata.blob_hash.as_ref() {\n                return Err(());\n            }\n        }")], None),
 ("r: failed by retain", F, [("        for failed_tablet_cache_key in failed_tablet_cache_entries {\n            self.tablet_cache_entries.remove(&failed_tablet_cache_key);\n        }", "        failed_tablet_cache_entries\n            .iter()\n            .for_each(|key| {\n                self.tablet_cache_entries.remove(key);\n            });")], None),
 ("r: evict via let", F, [("        for evicted_tablet_cache_key in self.tablet_cache_policy.evict(\n            instant,\n            self.config.tablet_cache_capacity,\n            &self.tablet_cache_entries,\n        ) {", "        let capacity = self.config.tablet_cache_capacity;\n        let evicted = self\n            .tablet_cache_policy\n            .evict(instant, capacity, &self.tablet_cache_entries);\n        for evicted_tablet_cache_key in evicted {")], None),
 ("r: if let chain state", F, [("        if updated_batch_operation.is_some() {\n            self.batch_state = updated_batch_operation.unwrap();\n        }", "        if let Some(state) = updated_batch_operation {\n            self.batch_state = state;\n        }")], None),
 ("r: failed list collected", F, [("            if let TabletCacheEntryState::Error = tablet_cache_entry.get_state() {\n                failed_tablet_cache_entries.push(tablet_cache_key.clone());\n            }\n", ""), ("        // Remove all tablet batches that have been completed.\n", "        for (key, entry) in &self.tablet_cache_entries {\n            if matches!(entry.get_state(), TabletCacheEntryState::Error) {\n                failed_tablet_cache_entries.push(key.clone());\n            }\n        }\n")], None),
 ("r: early ready return", F, [("        if !tablet_batch.is_ready() {\n            self.tablet_batches.insert(self.batch_counter, tablet_batch);\n        }\n\n        result_handle\n    }\n\n    fn store", "        if tablet_batch.is_ready() {\n            return result_handle;\n        }\n        self.tablet_batches.insert(self.batch_counter, tablet_batch);\n        result_handle\n    }\n\n    fn store")], None),
 ("r: retain failed", F, [("        for failed_tablet_cache_key in failed_tablet_cache_entries {\n            self.tablet_cache_entries.remove(&failed_tablet_cache_key);\n        }", "        let _ = failed_tablet_cache_entries;\n        self.tablet_cache_entries.retain(|_, e| !matches!(e.get_state(), TabletCacheEntryState::Error));"), ("let mut failed_tablet_cache_entries = Vec::new();", "let mut failed_tablet_cache_entries: Vec<TabletCacheKey> = Vec::new();")], None),
 ("r: map collect contents", F, [("        let mut tablets_contents = Vec::with_capacity(tablets_data.len());\n        for (tablet_metadata, tablet_value) in &mut tablets_data {\n            if let Ok(tablet_data) = self.prepare_tablet_write(*tablet_metadata, tablet_value) {\n                tablets_contents.push(tablet_data);\n            } else {\n                return create_result_from_error(TabletDataStorageStatus::Failed);\n            }\n        }", "        let mut tablets_contents = Vec::new();\n        for (tablet_metadata, tablet_value) in tablets_data.iter_mut() {\n            match self.prepare_tablet_write(tablet_metadata, tablet_value) {\n                Ok(contents) => tablets_contents.push(contents),\n                Err(_) => return create_result_from_error(TabletDataStorageStatus::Failed),\n            }\n        }")], None),
]
