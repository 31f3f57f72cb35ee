"""Behaviour-preserving rewrites of the metadata cache: every check must stay quiet."""
F = "apps/tablet_cache/service/src/transaction/metadata.rs"
def src(a, b):
    s = open("/repo/" + F).read()
    i = s.index(a)
    return s[i:s.index(b, i)]
CASES = [
 ("m: request id var", F, [('''        self.resolve_request_counter += 1;
''', '''        let resolve_request_id = self.resolve_request_counter + 1;
        self.resolve_request_counter = resolve_request_id;
'''), ('''            self.resolve_request_counter,
            queries,''', '''            resolve_request_id,
            queries,'''), ('''            .insert(self.resolve_request_counter, resolve_request);''', '''            .insert(resolve_request_id, resolve_request);''')], None),
 ("m: init collect", F, [('''        for table_config in &self.config.table_configs {
            self.tables.insert(
                table_config.table_name.clone(),
                TableMetadata::create(
                    table_config.table_name.clone(),
                    table_config.table_region_size,
                ),
            );
        }
''', '''        let tables = self.config.table_configs.iter().map(|table_config| {
            let table_name = table_config.table_name.clone();
            let table = TableMetadata::create(table_name.clone(), table_config.table_region_size);
            (table_name, table)
        });
        self.tables.extend(tables);
''')], None),
 ("m: init for_each", F, [('''        for table_config in &self.config.table_configs {
            self.tables.insert(
                table_config.table_name.clone(),
                TableMetadata::create(
                    table_config.table_name.clone(),
                    table_config.table_region_size,
                ),
            );
        }
''', '''        for table_config in self.config.table_configs.iter() {
            let table_name = &table_config.table_name;
            let table = TableMetadata::create(table_name.to_string(), table_config.table_region_size);
            self.tables.insert(table_name.to_string(), table);
        }
''')], None),
 ("m: progress early return", F, [('''        if !list_ops.is_empty() {
            self.correlation_counter += 1;
            self.out_messages
                .push(TabletMetadataCacheOutMessage::ListRequest(
                    self.correlation_counter,
                    list_ops,
                ));
        }
''', '''        if list_ops.is_empty() {
            return;
        }
        self.correlation_counter += 1;
        let correlation_id = self.correlation_counter;
        let list_request = TabletMetadataCacheOutMessage::ListRequest(correlation_id, list_ops);
        self.out_messages.push(list_request);
''')], None),
 ("m: progress iter_mut", F, [('''        for table_metadata in self.tables.values_mut() {
            table_metadata.prepare_list_op(&mut list_ops);
        }
''', '''        self.tables
            .iter_mut()
            .for_each(|(_, table_metadata)| table_metadata.prepare_list_op(&mut list_ops));
''')], None),
 ("m: progress returns ops", F, [('''            table_metadata.prepare_list_op(&mut list_ops);
''', '''            list_ops.extend(table_metadata.prepare_list_ops());
'''), (src("    fn prepare_list_op(&mut self, list_ops", "    // Insert") if False else '''    fn prepare_list_op(&mut self, list_ops: &mut Vec<TabletOp>) {
''', '''    fn prepare_list_ops(&mut self) -> Vec<TabletOp> {
        let mut list_ops = Vec::new();
'''), ('''                list_ops.push(TabletOp {
                    table_name: self.table_name.clone(),
                    op: Some(list_op),
                })
            }
        }
''', '''                list_ops.push(TabletOp {
                    table_name: self.table_name.clone(),
                    op: Some(list_op),
                })
            }
        }
        list_ops
''')], None),
 ("m: resolve handle tuple", F, [('''        self.resolve_tablets_with_notification(
            queries,
            TableResolveNotification::ResultSource(result_source),
        );

        result_handle
''', '''        let notification = TableResolveNotification::ResultSource(result_source);
        self.resolve_tablets_with_notification(queries, notification);
        result_handle
''')], None),
 ("m: update let else", F, [('''        if let Some(table_metadata) = self.tables.get_mut(&table_name) {
            table_metadata.update_tablet(tablet_metadata, conflict);
        }
''', '''        let Some(table_metadata) = self.tables.get_mut(&table_name) else {
            return;
        };
        table_metadata.update_tablet(tablet_metadata, conflict);
''')], None),
 ("m: response let else", F, [('''                    if let Some(tablet_op_result::OpResult::ListTablet(list_tablet_result)) =
                        list_op_result.op_result
                    {
''', '''                    let Some(tablet_op_result::OpResult::ListTablet(list_tablet_result)) =
                        list_op_result.op_result
                    else {
                        panic!("Unexpected op result, expected list op results.");
                    };
                    {
'''), ('''                    } else {
                        panic!("Unexpected op result, expected list op results.");
                    }
''', '''                    }
''')], None),
 ("m: response match status", F, [('''                            let op_succeeded =
                                list_op_result.status == TabletOpStatus::Succeeded as i32;
''', '''                            let op_succeeded = matches!(
                                TabletOpStatus::from_i32(list_op_result.status),
                                Some(TabletOpStatus::Succeeded)
                            );
''')], None),
 ("m: response then", F, [('''                                    if op_succeeded {
                                        Some(list_tablet_result.tablets)
                                    } else {
                                        None
                                    },
''', '''                                    op_succeeded.then_some(list_tablet_result.tablets),
''')], None),
 ("m: response tablets let", F, [('''                            let (table_region_idx, resolve_requests_to_notify) = table_metadata
                                .update_region(
                                    list_tablet_result.key_hash_from,
                                    if op_succeeded {
                                        Some(list_tablet_result.tablets)
                                    } else {
                                        None
                                    },
                                );
''', '''                            let mut tablets = None;
                            if op_succeeded {
                                tablets = Some(list_tablet_result.tablets);
                            }
                            let (table_region_idx, resolve_requests_to_notify) =
                                table_metadata.update_region(list_tablet_result.key_hash_from, tablets);
''')], None),
 ("m: response method", F, [('''            TabletMetadataCacheInMessage::ListResponse(correlation_id, list_op_results) => {
                for list_op_result in list_op_results {
''', '''            TabletMetadataCacheInMessage::ListResponse(_, list_op_results) => {
                list_op_results
                    .into_iter()
                    .for_each(|list_op_result| self.process_list_result(list_op_result));
            }
        }
    }

    fn take_out_messages(&mut self) -> Vec<TabletMetadataCacheOutMessage> {
        mem::take(&mut self.out_messages)
    }
}

impl DefaultTabletMetadataCache {
    fn process_list_result(&mut self, list_op_result: TabletOpResult) {
        {
            {
                {
'''), ('''                    } else {
                        panic!("Unexpected op result, expected list op results.");
                    }
                }
            }
        }
    }

    fn take_out_messages(&mut self) -> Vec<TabletMetadataCacheOutMessage> {
        mem::take(&mut self.out_messages)
    }
}
''', '''                    } else {
                        panic!("Unexpected op result, expected list op results.");
                    }
                }
            }
        }
    }
}
''')], None),
 ("m: list op guard", F, [('''        if let TableRegionState::Stale(resolve_requests, prepared_op) = &mut self.state {
            if !*prepared_op && !resolve_requests.is_empty() {
                *prepared_op = true;
                return Some(tablet_op::Op::ListTablet(ListTabletOp {
                    key_hash_from: region_from,
                    key_hash_to: region_to,
                }));
            }
        }
        None
''', '''        match &mut self.state {
            TableRegionState::Stale(resolve_requests, prepared_op)
                if !*prepared_op && resolve_requests.len() > 0 =>
            {
                *prepared_op = true;
                let list_op = ListTabletOp {
                    key_hash_to: region_to,
                    key_hash_from: region_from,
                };
                Some(tablet_op::Op::ListTablet(list_op))
            }
            _ => None,
        }
''')], None),
 ("m: list op early", F, [('''        if let TableRegionState::Stale(resolve_requests, prepared_op) = &mut self.state {
            if !*prepared_op && !resolve_requests.is_empty() {
                *prepared_op = true;
                return Some(tablet_op::Op::ListTablet(ListTabletOp {
                    key_hash_from: region_from,
                    key_hash_to: region_to,
                }));
            }
        }
        None
''', '''        let TableRegionState::Stale(resolve_requests, prepared_op) = &mut self.state else {
            return None;
        };
        if *prepared_op || resolve_requests.is_empty() {
            return None;
        }
        *prepared_op = true;
        Some(tablet_op::Op::ListTablet(ListTabletOp {
            key_hash_from: region_from,
            key_hash_to: region_to,
        }))
''')], None),
 ("m: fresh ids if", F, [('''        match self.state {
            TableRegionState::Stale(_, _) => None,
            TableRegionState::Fresh => Some(&self.tablet_ids),
        }
''', '''        if matches!(self.state, TableRegionState::Fresh) {
            Some(&self.tablet_ids)
        } else {
            None
        }
''')], None),
 ("m: mark stale let", F, [('''        self.state = TableRegionState::Stale(
            match &mut self.state {
                TableRegionState::Stale(resolve_requests, _) => mem::take(resolve_requests),
                TableRegionState::Fresh => Vec::new(),
            },
            false,
        );
        self.tablet_ids.clear();
''', '''        let resolve_requests = if let TableRegionState::Stale(resolve_requests, _) = &mut self.state {
            mem::take(resolve_requests)
        } else {
            Vec::new()
        };
        self.state = TableRegionState::Stale(resolve_requests, false);
        self.tablet_ids = BTreeSet::new();
''')], None),
 ("m: mark stale in place", F, [('''        self.state = TableRegionState::Stale(
            match &mut self.state {
                TableRegionState::Stale(resolve_requests, _) => mem::take(resolve_requests),
                TableRegionState::Fresh => Vec::new(),
            },
            false,
        );
        self.tablet_ids.clear();
''', '''        match &mut self.state {
            TableRegionState::Stale(_, prepared_op) => *prepared_op = false,
            TableRegionState::Fresh => self.state = TableRegionState::Stale(Vec::new(), false),
        }
        self.tablet_ids.clear();
''')], None),
 ("m: mark fresh extend", F, [('''            for registered_resolve_request in registered_resolve_requests {
                resolve_requests_to_notify.push(*registered_resolve_request);
            }
''', '''            resolve_requests_to_notify.extend(registered_resolve_requests.iter().copied());
''')], None),
 ("m: mark fresh append", F, [('''        if let TableRegionState::Stale(registered_resolve_requests, _) = &self.state {
            for registered_resolve_request in registered_resolve_requests {
                resolve_requests_to_notify.push(*registered_resolve_request);
            }
        }
''', '''        if let TableRegionState::Stale(registered_resolve_requests, _) = &mut self.state {
            resolve_requests_to_notify.append(registered_resolve_requests);
        }
''')], None),
 ("m: mark fresh replace", F, [('''        if let TableRegionState::Stale(registered_resolve_requests, _) = &self.state {
            for registered_resolve_request in registered_resolve_requests {
                resolve_requests_to_notify.push(*registered_resolve_request);
            }
        }
        self.state = TableRegionState::Fresh;
''', '''        let previous_state = mem::replace(&mut self.state, TableRegionState::Fresh);
        if let TableRegionState::Stale(registered_resolve_requests, _) = previous_state {
            for registered_resolve_request in registered_resolve_requests {
                resolve_requests_to_notify.push(registered_resolve_request);
            }
        }
''')], None),
 ("m: fresh ids collect", F, [('''        self.tablet_ids = BTreeSet::from_iter(tablet_ids.into_iter());
''', '''        self.tablet_ids = tablet_ids.into_iter().collect();
''')], None),
 ("m: fresh ids loop", F, [('''        self.tablet_ids = BTreeSet::from_iter(tablet_ids.into_iter());
''', '''        self.tablet_ids.clear();
        for tablet_id in tablet_ids {
            self.tablet_ids.insert(tablet_id);
        }
''')], None),
 ("m: register if let", F, [('''        match &mut self.state {
            TableRegionState::Stale(resolve_request_ids, _) => {
                resolve_request_ids.push(resolve_request_id);
            }
            TableRegionState::Fresh => {
                panic!("Pending queries can only be registered when region is not fresh");
            }
        }
''', '''        let TableRegionState::Stale(resolve_request_ids, _) = &mut self.state else {
            panic!("Pending queries can only be registered when region is not fresh");
        };
        resolve_request_ids.push(resolve_request_id);
''')], None),
 ("m: regions collect", F, [('''        let mut regions = HashMap::with_capacity(last_region_idx as usize + 1);
        for region_idx in 0..=last_region_idx {
            regions.insert(region_idx, TableRegion::create());
        }
''', '''        let regions = (0..=last_region_idx)
            .map(|region_idx| (region_idx, TableRegion::create()))
            .collect();
''')], None),
 ("m: prepare filter_map", F, [('''        for (table_region_idx, table_region) in &mut self.regions {
            let (table_region_from, table_region_to) =
                Self::compute_table_region_bounds(self.region_size, *table_region_idx);
            if let Some(list_op) =
                table_region.maybe_prepare_list_op(table_region_from, table_region_to)
            {
                list_ops.push(TabletOp {
                    table_name: self.table_name.clone(),
                    op: Some(list_op),
                })
            }
        }
''', '''        for (region_idx, region) in self.regions.iter_mut() {
            let bounds = Self::compute_table_region_bounds(self.region_size, *region_idx);
            let op = region.maybe_prepare_list_op(bounds.0, bounds.1);
            if op.is_none() {
                continue;
            }
            let table_name = self.table_name.clone();
            list_ops.push(TabletOp { table_name, op });
        }
''')], None),
 ("m: latest get", F, [('''        match tablets.entry(tablet_metadata.tablet_id) {
            Entry::Occupied(mut e) => {
                let latest_tablet_metadata = e.get_mut();
                if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {
                    *latest_tablet_metadata = tablet_metadata;
                }
            }
            Entry::Vacant(mut e) => {
                e.insert(tablet_metadata);
            }
        }
''', '''        let is_latest = match tablets.get(&tablet_metadata.tablet_id) {
            Some(known) => known.tablet_version < tablet_metadata.tablet_version,
            None => true,
        };
        if is_latest {
            tablets.insert(tablet_metadata.tablet_id, tablet_metadata);
        }
''')], None),
 ("m: latest map_or", F, [('''        match tablets.entry(tablet_metadata.tablet_id) {
            Entry::Occupied(mut e) => {
                let latest_tablet_metadata = e.get_mut();
                if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {
                    *latest_tablet_metadata = tablet_metadata;
                }
            }
            Entry::Vacant(mut e) => {
                e.insert(tablet_metadata);
            }
        }
''', '''        let is_latest = tablets
            .get(&tablet_metadata.tablet_id)
            .map_or(true, |known| tablet_metadata.tablet_version > known.tablet_version);
        if !is_latest {
            return;
        }
        tablets.insert(tablet_metadata.tablet_id, tablet_metadata);
''')], None),
 ("m: latest occupied insert", F, [('''                let latest_tablet_metadata = e.get_mut();
                if latest_tablet_metadata.tablet_version < tablet_metadata.tablet_version {
                    *latest_tablet_metadata = tablet_metadata;
                }
''', '''                if e.get().tablet_version < tablet_metadata.tablet_version {
                    e.insert(tablet_metadata);
                }
''')], None),
 ("m: update region conflict first", F, [('''        if let Some(table_region) = self.regions.get_mut(&table_region_idx) {
            if conflict {
                table_region.mark_stale();
            }
        }
''', '''        if !conflict {
            return;
        }
        if let Some(table_region) = self.regions.get_mut(&table_region_idx) {
            table_region.mark_stale();
        }
''')], None),
 ("m: update region ids map", F, [('''                let mut tablet_ids = Vec::new();
                for tablet_metadata in tablets {
                    tablet_ids.push(tablet_metadata.tablet_id);
                    Self::insert_latest_tablet(&mut self.tablets, tablet_metadata);
                }
''', '''                let tablet_ids = tablets
                    .iter()
                    .map(|tablet_metadata| tablet_metadata.tablet_id)
                    .collect::<Vec<_>>();
                for tablet_metadata in tablets {
                    Self::insert_latest_tablet(&mut self.tablets, tablet_metadata);
                }
''')], None),
 ("m: update region match", F, [('''            if let Some(tablets) = tablets {
                let mut tablet_ids = Vec::new();''', '''            if tablets.is_some() {
                let tablets = tablets.unwrap();
                let mut tablet_ids = Vec::new();''')], None),
 ("m: update region returns ids", F, [('''                table_region.mark_fresh(tablet_ids, &mut resolve_requests_to_notify);
''', '''                resolve_requests_to_notify = table_region.mark_fresh(tablet_ids);
'''), ('''    fn mark_fresh(&mut self, tablet_ids: Vec<u32>, resolve_requests_to_notify: &mut Vec<u64>) {
''', '''    fn mark_fresh(&mut self, tablet_ids: Vec<u32>) -> Vec<u64> {
        let mut resolve_requests_to_notify = Vec::new();
'''), ('''        self.tablet_ids = BTreeSet::from_iter(tablet_ids.into_iter());
''', '''        self.tablet_ids = BTreeSet::from_iter(tablet_ids.into_iter());
        resolve_requests_to_notify
''')], None),
 ("m: try resolve guard", F, [('''        if let Some(table_region) = self.regions.get(&table_region_idx) {
            if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
''', '''        let Some(table_region) = self.regions.get(&table_region_idx) else {
            panic!("Unexpected tablet region index");
        };
        {
            if let Some(fresh_tablet_ids) = table_region.maybe_fresh_tablet_ids() {
'''), ('''        } else {
            panic!("Unexpected tablet region index");
        }
    }
''', '''        }
    }
''')], None),
 ("m: try resolve owner helper", F, [('''                    let tablet_id = *fresh_tablet_ids
                        .range(*key_hash..)
                        .next()
                        .or(fresh_tablet_ids.first())
                        .unwrap();
''', '''                    let tablet_id = Self::find_tablet(fresh_tablet_ids, *key_hash);
'''), ('''    fn register_pending_query(&mut self, resolve_request_id: u64, table_region_idx: u32) {
''', '''    fn find_tablet(tablet_ids: &BTreeSet<u32>, key_hash: u32) -> u32 {
        match tablet_ids.range(key_hash..).next() {
            Some(tablet_id) => *tablet_id,
            None => *tablet_ids.first().unwrap(),
        }
    }

    fn register_pending_query(&mut self, resolve_request_id: u64, table_region_idx: u32) {
''')], None),
 ("m: try resolve or_else", F, [('''                        .or(fresh_tablet_ids.first())
                        .unwrap();
''', '''                        .or_else(|| fresh_tablet_ids.iter().next())
                        .unwrap();
''')], None),
 ("m: try resolve flush closure", F, [('''                if !curr_key_hashes.is_empty() {
                    resolve_result.push((
                        table_query.create_from(mem::take(&mut curr_key_hashes)),
                        self.tablets.get(&curr_tablet_id).unwrap().clone(),
                    ));
                }

                Some(resolve_result)
''', '''                if !curr_key_hashes.is_empty() {
                    let curr_query = table_query.create_from(curr_key_hashes);
                    let curr_tablet = self.tablets[&curr_tablet_id].clone();
                    resolve_result.push((curr_query, curr_tablet));
                }

                Some(resolve_result)
''')], None),
 ("m: try resolve method flush", F, [('''                        if !curr_key_hashes.is_empty() {
                            resolve_result.push((
                                table_query.create_from(mem::take(&mut curr_key_hashes)),
                                self.tablets.get(&curr_tablet_id).unwrap().clone(),
                            ));
                        }
''', '''                        self.flush(table_query, &mut curr_key_hashes, curr_tablet_id, &mut resolve_result);
'''), ('''                if !curr_key_hashes.is_empty() {
                    resolve_result.push((
                        table_query.create_from(mem::take(&mut curr_key_hashes)),
                        self.tablets.get(&curr_tablet_id).unwrap().clone(),
                    ));
                }

                Some(resolve_result)
''', '''                self.flush(table_query, &mut curr_key_hashes, curr_tablet_id, &mut resolve_result);

                Some(resolve_result)
'''), ('''    fn register_pending_query(&mut self, resolve_request_id: u64, table_region_idx: u32) {
''', '''    fn flush(
        &self,
        table_query: &TableQuery,
        key_hashes: &mut Vec<u32>,
        tablet_id: u32,
        result: &mut Vec<(TableQuery, TabletMetadata)>,
    ) {
        if key_hashes.is_empty() {
            return;
        }
        let tablet_metadata = self.tablets.get(&tablet_id).unwrap().clone();
        result.push((table_query.create_from(mem::take(key_hashes)), tablet_metadata));
    }

    fn register_pending_query(&mut self, resolve_request_id: u64, table_region_idx: u32) {
''')], None),
 ("m: split loop", F, [('''            while *key_hash > region_end {
                if !region_key_hashes.is_empty() {''', '''            loop {
                if *key_hash <= region_end {
                    break;
                }
                if !region_key_hashes.is_empty() {''')], None),
 ("m: split tuple bounds", F, [('''                (region_start, region_end) =
                    Self::compute_table_region_bounds(self.region_size, region_idx);
''', '''                let bounds = Self::compute_table_region_bounds(self.region_size, region_idx);
                region_start = bounds.0;
                region_end = bounds.1;
''')], None),
 ("m: split returns", F, [('''    fn split_and_map_query(&self, query: &TableQuery, result: &mut Vec<(TableQuery, u32)>) {
        if query.get_key_hashes().is_empty() {
            return;
        }
''', '''    fn split_and_map_query(&self, query: &TableQuery) -> Vec<(TableQuery, u32)> {
        let mut result = Vec::new();
        if query.get_key_hashes().is_empty() {
            return result;
        }
'''), ('''            result.push((query.create_from(region_key_hashes), region_idx));
        }
    }
''', '''            result.push((query.create_from(region_key_hashes), region_idx));
        }
        result
    }
'''), ('''            tables
                .get(query.get_table_name())
                .unwrap()
                .split_and_map_query(query, &mut split_queries);
''', '''            let table_metadata = tables.get(query.get_table_name()).unwrap();
            split_queries.extend(table_metadata.split_and_map_query(query));
''')], None),
 ("m: bounds checked", F, [('''        let region_end = if region_start > u32::MAX - region_size {
            u32::MAX
        } else {
            region_start + region_size - 1
        };
''', '''        let region_end = match region_start.checked_add(region_size) {
            Some(next_region_start) => next_region_start - 1,
            None => u32::MAX,
        };
''')], None),
 ("m: bounds saturating", F, [('''        let region_end = if region_start > u32::MAX - region_size {
            u32::MAX
        } else {
            region_start + region_size - 1
        };
''', '''        let region_end = region_start.saturating_add(region_size - 1);
''')], None),
 ("m: create unknown", F, [('''            if let Some(table_query_result) =
                table_metadata.try_resolve_pending_query(table_region_idx, &table_query)
            {
                tablet_resolve.append_results(table_query_result);
            } else {
''', '''            let table_query_result =
                table_metadata.try_resolve_pending_query(table_region_idx, &table_query);
            if table_query_result.is_some() {
                tablet_resolve.append_results(table_query_result.unwrap());
            } else {
''')], None),
 ("m: create entry match", F, [('''                let pending_table_queries = tablet_resolve
                    .pending_table_queries
                    .entry((table_query.get_table_name().clone(), table_region_idx))
                    .or_default();
                if pending_table_queries.is_empty() {
                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
                }
                pending_table_queries.push(table_query);
''', '''                let key = (table_query.get_table_name().clone(), table_region_idx);
                if !tablet_resolve.pending_table_queries.contains_key(&key) {
                    table_metadata.register_pending_query(resolve_request_id, table_region_idx);
                }
                tablet_resolve
                    .pending_table_queries
                    .entry(key)
                    .or_insert_with(Vec::new)
                    .push(table_query);
''')], None),
 ("m: create new fn", F, [('''        let mut tablet_resolve = Self {
            notification,
            pending_table_queries: HashMap::new(),
            results: HashMap::new(),
        };
''', '''        let pending_table_queries = HashMap::new();
        let results = HashMap::new();
        let mut tablet_resolve = Self { notification, pending_table_queries, results };
''')], None),
 ("m: append or_insert_with", F, [('''            let result = self
                .results
                .entry((
                    table_query.get_table_name().clone(),
                    tablet_metadata.tablet_id,
                ))
                .or_insert(TabletResolveResult::create(
                    table_query.get_id(),
                    table_query.get_table_name().clone(),
                    tablet_metadata,
                ));
            result.append_key_hashes(table_query.get_key_hashes());
''', '''            let key = (table_query.get_table_name().clone(), tablet_metadata.tablet_id);
            self.results
                .entry(key)
                .or_insert_with(|| {
                    TabletResolveResult::create(
                        table_query.get_id(),
                        table_query.get_table_name().clone(),
                        tablet_metadata,
                    )
                })
                .append_key_hashes(table_query.get_key_hashes());
''')], None),
 ("m: maybe results early", F, [('''        if self.pending_table_queries.is_empty() {
            let mut results = Vec::new();
            for (_, tablet_resolve_result) in mem::take(&mut self.results) {
                results.push(tablet_resolve_result.take_result());
            }
''', '''        if !self.pending_table_queries.is_empty() {
            return;
        }
        {
            let results: Vec<_> = mem::take(&mut self.results)
                .into_values()
                .map(|tablet_resolve_result| tablet_resolve_result.take_result())
                .collect();
''')], None),
 ("m: maybe results drain", F, [('''            for (_, tablet_resolve_result) in mem::take(&mut self.results) {
''', '''            for (_, tablet_resolve_result) in self.results.drain() {
''')], None),
 ("m: handler descriptors loop", F, [('''                TableResolveNotification::Handler(handler) => handler(
                    results
                        .iter()
                        .map(|(table_query, tablet_metadata)| {
                            (
                                table_query.clone(),
                                TabletDescriptor::create(tablet_metadata.tablet_id, true),
                            )
                        })
                        .collect(),
                ),
''', '''                TableResolveNotification::Handler(handler) => {
                    let mut descriptors = Vec::with_capacity(results.len());
                    for (table_query, tablet_metadata) in results {
                        let descriptor = TabletDescriptor::create(tablet_metadata.tablet_id, true);
                        descriptors.push((table_query, descriptor));
                    }
                    handler(descriptors)
                }
''')], None),
 ("m: process fresh match", F, [('''        for pending_table_query in self
            .pending_table_queries
            .remove(&(table_name.clone(), table_region_idx))
            .unwrap_or_default()
        {
            if let Some''', '''        let key = (table_name.to_owned(), table_region_idx);
        let pending_table_queries = match self.pending_table_queries.remove(&key) {
            Some(pending_table_queries) => pending_table_queries,
            None => Vec::new(),
        };
        for pending_table_query in &pending_table_queries {
            if let Some'''), ("try_resolve_pending_query(table_region_idx, &pending_table_query)", "try_resolve_pending_query(table_region_idx, pending_table_query)")], None),
 ("m: process fresh expect", F, [('''            if let Some(table_query_result) =
                table_metadata.try_resolve_pending_query(table_region_idx, &pending_table_query)
            {
                self.append_results(table_query_result);
            } else {
                panic!("The query is not resolved whereas the table region is fresh");
            }
''', '''            let table_query_result = table_metadata
                .try_resolve_pending_query(table_region_idx, &pending_table_query)
                .expect("The query is not resolved whereas the table region is fresh");
            self.append_results(table_query_result);
''')], None),
 ("m: result extend", F, [('''        for key_hash in key_hashes {
            self.key_hashes.push(*key_hash);
        }
''', '''        self.key_hashes.extend(key_hashes.iter());
''')], None),
 ("m: result destructure", F, [('''        (
            TableQuery::create(self.table_query_id, self.table_name, self.key_hashes),
            self.tablet_metadata,
        )
''', '''        let Self {
            table_query_id,
            table_name,
            tablet_metadata,
            key_hashes,
        } = self;
        let table_query = TableQuery::create(table_query_id, table_name, key_hashes);
        (table_query, tablet_metadata)
''')], None),
]
