"""Behaviour-preserving rewrites of the data cache: every check must stay quiet."""
F = "apps/tablet_cache/service/src/transaction/data.rs"
CASES = [
 ("d: register filter_map", F, [('''        for tablet_cache_key in tablet_cache_keys {
            if let Some(tablet_cache_entry) = self.tablet_cache_entries.get_mut(tablet_cache_key) {
                tablet_batch.add_pending_cache_entry(tablet_cache_entry);
            }
        }
''', '''        tablet_cache_keys.iter().for_each(|tablet_cache_key| {
            if let Some(tablet_cache_entry) = self.tablet_cache_entries.get_mut(tablet_cache_key) {
                tablet_batch.add_pending_cache_entry(tablet_cache_entry);
            }
        });
''')], None),
 ("d: register continue", F, [('''            if let Some(tablet_cache_entry) = self.tablet_cache_entries.get_mut(tablet_cache_key) {
                tablet_batch.add_pending_cache_entry(tablet_cache_entry);
            }
''', '''            let tablet_cache_entry = match self.tablet_cache_entries.get_mut(tablet_cache_key) {
                Some(entry) => entry,
                None => continue,
            };
            tablet_batch.add_pending_cache_entry(tablet_cache_entry);
''')], None),
 ("d: register slices", F, [("        tablet_cache_keys: &Vec<TabletCacheKey>,\n    ) {", "        tablet_cache_keys: &[TabletCacheKey],\n    ) {")], None),
 ("d: write new metadata", F, [('''        tablet_metadata.tablet_version += 1;
        tablet_metadata.blob_size = tablet_contents.len() as u32;
        tablet_metadata.blob_hash = Sha256::digest(&tablet_contents).to_vec().into();
        // To ensure the tablet uri is unique use composite name based on tablet
        // id, version and content hash.
        tablet_metadata.blob_uri = format_blob_uri(
            tablet_metadata.tablet_id,
            tablet_metadata.tablet_version,
            tablet_metadata.blob_hash.clone(),
        );

        Ok(tablet_contents)
''', '''        let tablet_version = tablet_metadata.tablet_version + 1;
        let blob_hash: Bytes = Sha256::digest(&tablet_contents).to_vec().into();
        let blob_uri =
            format_blob_uri(tablet_metadata.tablet_id, tablet_version, blob_hash.clone());
        tablet_metadata.tablet_version = tablet_version;
        tablet_metadata.blob_size = tablet_contents.len() as u32;
        tablet_metadata.blob_hash = blob_hash;
        tablet_metadata.blob_uri = blob_uri;

        Ok(tablet_contents)
''')], None),
 ("d: write struct update", F, [('''        tablet_metadata.tablet_version += 1;
        tablet_metadata.blob_size = tablet_contents.len() as u32;
        tablet_metadata.blob_hash = Sha256::digest(&tablet_contents).to_vec().into();
        // To ensure the tablet uri is unique use composite name based on tablet
        // id, version and content hash.
        tablet_metadata.blob_uri = format_blob_uri(
            tablet_metadata.tablet_id,
            tablet_metadata.tablet_version,
            tablet_metadata.blob_hash.clone(),
        );

        Ok(tablet_contents)
''', '''        let tablet_version = tablet_metadata.tablet_version + 1;
        let blob_hash: Bytes = Sha256::digest(&tablet_contents).to_vec().into();
        *tablet_metadata = TabletMetadata {
            tablet_version,
            blob_size: tablet_contents.len() as u32,
            blob_uri: format_blob_uri(tablet_metadata.tablet_id, tablet_version, blob_hash.clone()),
            blob_hash,
            ..tablet_metadata.clone()
        };

        Ok(tablet_contents)
''')], None),
 ("d: serialize map", F, [('''        let tablet_contents = self.tablet_serializer.serialize(tablet_value)?;
''', '''        let tablet_contents = match self.tablet_serializer.serialize(tablet_value) {
            Ok(tablet_contents) => tablet_contents,
            Err(_) => return Err(()),
        };
''')], None),
 ("d: read hash var", F, [('''        if !tablet_metadata.blob_hash.is_empty()
            && Sha256::digest(&tablet_contents).as_slice() != tablet_metadata.blob_hash.as_ref()
        {
            return Err(());
        }
''', '''        let blob_hash = &tablet_metadata.blob_hash;
        let has_hash = blob_hash.len() > 0;
        if has_hash {
            let contents_hash = Sha256::digest(&tablet_contents);
            if contents_hash.as_slice() != blob_hash.as_ref() {
                return Err(());
            }
        }
''')], None),
 ("d: read verified helper", F, [('''    fn prepare_tablet_read(
''', '''    fn is_authentic(tablet_metadata: &TabletMetadata, tablet_contents: &Bytes) -> bool {
        tablet_metadata.blob_hash.is_empty()
            || Sha256::digest(tablet_contents).as_slice() == tablet_metadata.blob_hash.as_ref()
    }

    fn prepare_tablet_read(
'''), ('''        if !tablet_metadata.blob_hash.is_empty()
            && Sha256::digest(&tablet_contents).as_slice() != tablet_metadata.blob_hash.as_ref()
        {
            return Err(());
        }
''', '''        if !Self::is_authentic(tablet_metadata, &tablet_contents) {
            return Err(());
        }
''')], None),
 ("d: read direct", F, [('''        let tablet_value = self
            .tablet_serializer
            .deserialize(&"todo".to_string(), tablet_contents)?;

        Ok(tablet_value)
''', '''        self.tablet_serializer
            .deserialize(&"todo".to_string(), tablet_contents)
''')], None),
 ("d: progress two loops", F, [('''        for (tablet_cache_key, tablet_cache_entry) in &mut self.tablet_cache_entries {
            for tablet_batch_id in tablet_cache_entry.take_waiting_batches() {
                self.tablet_batches
                    .get_mut(&tablet_batch_id)
                    .unwrap()
                    .resolve_pending_cache_entry(tablet_cache_entry);
            }

            if let TabletCacheEntryState::Error = tablet_cache_entry.get_state() {
                failed_tablet_cache_entries.push(tablet_cache_key.clone());
            }
        }
''', '''        for tablet_cache_entry in self.tablet_cache_entries.values_mut() {
            for tablet_batch_id in tablet_cache_entry.take_waiting_batches() {
                let tablet_batch = self.tablet_batches.get_mut(&tablet_batch_id).unwrap();
                tablet_batch.resolve_pending_cache_entry(tablet_cache_entry);
            }
        }
        for (tablet_cache_key, tablet_cache_entry) in &self.tablet_cache_entries {
            if matches!(tablet_cache_entry.get_state(), TabletCacheEntryState::Error) {
                failed_tablet_cache_entries.push(tablet_cache_key.clone());
            }
        }
''')], None),
 ("d: progress retain entries", F, [('''            if let TabletCacheEntryState::Error = tablet_cache_entry.get_state() {
                failed_tablet_cache_entries.push(tablet_cache_key.clone());
            }
        }
''', '''        }
'''), ("        let mut failed_tablet_cache_entries = Vec::new();\n\n", ""), ("for (tablet_cache_key, tablet_cache_entry) in &mut", "for (_, tablet_cache_entry) in &mut"), ('''        for failed_tablet_cache_key in failed_tablet_cache_entries {
            self.tablet_cache_entries.remove(&failed_tablet_cache_key);
        }
''', '''        self.tablet_cache_entries.retain(|_, tablet_cache_entry| {
            !matches!(tablet_cache_entry.get_state(), TabletCacheEntryState::Error)
        });
''')], None),
 ("d: progress failed filter", F, [('''            if let TabletCacheEntryState::Error = tablet_cache_entry.get_state() {
                failed_tablet_cache_entries.push(tablet_cache_key.clone());
            }
        }
''', '''        }
'''), ("        let mut failed_tablet_cache_entries = Vec::new();\n\n", ""), ("for (tablet_cache_key, tablet_cache_entry) in &mut", "for (_, tablet_cache_entry) in &mut"), ('''        for failed_tablet_cache_key in failed_tablet_cache_entries {
''', '''        let failed_tablet_cache_entries: Vec<TabletCacheKey> = self
            .tablet_cache_entries
            .iter()
            .filter(|(_, tablet_cache_entry)| {
                matches!(tablet_cache_entry.get_state(), TabletCacheEntryState::Error)
            })
            .map(|(tablet_cache_key, _)| tablet_cache_key.clone())
            .collect();
        for failed_tablet_cache_key in failed_tablet_cache_entries {
''')], None),
 ("d: progress evict method", F, [('''        for evicted_tablet_cache_key in self.tablet_cache_policy.evict(
            instant,
            self.config.tablet_cache_capacity,
            &self.tablet_cache_entries,
        ) {
            self.tablet_cache_entries.remove(&evicted_tablet_cache_key);
        }
    }
''', '''        self.evict_tablets(instant);
    }
'''), ('''    fn prepare_tablet_write(
''', '''    fn evict_tablets(&mut self, instant: u64) {
        let capacity = self.config.tablet_cache_capacity;
        let evicted = self
            .tablet_cache_policy
            .evict(instant, capacity, &self.tablet_cache_entries);
        for key in &evicted {
            self.tablet_cache_entries.remove(key);
        }
    }

    fn prepare_tablet_write(
''')], None),
 ("d: load contains key", F, [('''            if let Vacant(map_entry) = self.tablet_cache_entries.entry(tablet_cache_key.clone()) {
''', '''            if !self.tablet_cache_entries.contains_key(&tablet_cache_key) {
'''), ('''                self.tablet_operations
                    .insert(self.correlation_counter, tablet_cache_key);

                let (tablet_cache_entry, load_tablet_request) =
''', '''                self.tablet_operations
                    .insert(self.correlation_counter, tablet_cache_key.clone());

                let (tablet_cache_entry, load_tablet_request) =
'''), ('''                self.out_messages.push(load_tablet_request);
                map_entry.insert(tablet_cache_entry);
''', '''                self.out_messages.push(load_tablet_request);
                self.tablet_cache_entries.insert(tablet_cache_key, tablet_cache_entry);
''')], None),
 ("d: load keys collect", F, [('''        let mut tablet_cache_keys = Vec::with_capacity(tablets_metadata.len());
        for tablet_metadata in tablets_metadata {
            let tablet_cache_key = TabletCacheKey::from(tablet_metadata);
            tablet_cache_keys.push(tablet_cache_key.clone());

''', '''        let tablet_cache_keys: Vec<TabletCacheKey> =
            tablets_metadata.iter().map(TabletCacheKey::from).collect();
        for tablet_metadata in tablets_metadata {
            let tablet_cache_key = TabletCacheKey::from(tablet_metadata);

''')], None),
 ("d: load helper", F, [('''                // Create new tablet cache entry and corresponding storage request if the tablet
                // is not being maintained by the cache.
                self.correlation_counter += 1;

                self.tablet_operations
                    .insert(self.correlation_counter, tablet_cache_key);

                let (tablet_cache_entry, load_tablet_request) =
                    TabletCacheEntry::<T>::with_load_state(
                        self.correlation_counter,
                        tablet_metadata,
                    );

                self.out_messages.push(load_tablet_request);
                map_entry.insert(tablet_cache_entry);
''', '''                let correlation_id = self.correlation_counter + 1;
                self.correlation_counter = correlation_id;
                let (tablet_cache_entry, load_tablet_request) =
                    TabletCacheEntry::<T>::with_load_state(correlation_id, tablet_metadata);
                map_entry.insert(tablet_cache_entry);
                self.out_messages.push(load_tablet_request);
                self.tablet_operations.insert(correlation_id, tablet_cache_key);
''')], None),
 ("d: finish batch helper", F, [('''        // Process immediately available tablet cache entries or register for the notification
        // on when the tablet cache entry is ready.
        self.register_pending_cache_entries(&mut tablet_batch, &tablet_cache_keys);

        // If tablet batch is not ready or in other words not all tablet cache
        // entries are ready, record batch for future notifications when tablet
        // cache entries become ready.
        if !tablet_batch.is_ready() {
            self.tablet_batches.insert(self.batch_counter, tablet_batch);
        }

        result_handle
    }

    fn store_tablets(
''', '''        self.start_batch(tablet_batch, tablet_cache_keys);

        result_handle
    }

    fn store_tablets(
'''), ('''        let (mut tablet_batch, result_handle) =
            TabletBatch::<T>::with_load_state(self.batch_counter);
''', '''        let (tablet_batch, result_handle) =
            TabletBatch::<T>::with_load_state(self.batch_counter);
'''), ('''        let (mut tablet_batch, result_handle) =
            TabletBatch::<T>::with_store_state(self.batch_counter);
        // Process immediately available tablet cache entries or register for the notification
        // on when the tablet cache entry is ready.
        self.register_pending_cache_entries(&mut tablet_batch, &tablet_cache_keys);

        // If tablet batch is not ready or in other words not all tablet cache
        // entries are ready, record batch for future notifications when tablet
        // cache entries become ready.
        if !tablet_batch.is_ready() {
            self.tablet_batches.insert(self.batch_counter, tablet_batch);
        }

''', '''        let (tablet_batch, result_handle) =
            TabletBatch::<T>::with_store_state(self.batch_counter);
        self.start_batch(tablet_batch, tablet_cache_keys);

'''), ('''    fn prepare_tablet_write(
''', '''    fn start_batch(&mut self, mut tablet_batch: TabletBatch<T>, tablet_cache_keys: Vec<TabletCacheKey>) {
        self.register_pending_cache_entries(&mut tablet_batch, &tablet_cache_keys);
        if tablet_batch.is_ready() {
            return;
        }
        self.tablet_batches.insert(tablet_batch.batch_id, tablet_batch);
    }

    fn prepare_tablet_write(
''')], None),
 ("d: batch id arg", F, [('''        self.batch_counter += 1;
        let (mut tablet_batch, result_handle) =
            TabletBatch::<T>::with_load_state(self.batch_counter);
''', '''        let batch_id = self.batch_counter + 1;
        self.batch_counter = batch_id;
        let (mut tablet_batch, result_handle) = TabletBatch::<T>::with_load_state(batch_id);
''')], None),
 ("d: store match err", F, [('''            if let Ok(tablet_data) = self.prepare_tablet_write(*tablet_metadata, tablet_value) {
                tablets_contents.push(tablet_data);
            } else {
                return create_result_from_error(TabletDataStorageStatus::Failed);
            }
''', '''            match self.prepare_tablet_write(tablet_metadata, tablet_value) {
                Err(()) => return create_result_from_error(TabletDataStorageStatus::Failed),
                Ok(tablet_contents) => tablets_contents.push(tablet_contents),
            }
''')], None),
 ("d: store is_err", F, [('''            if let Ok(tablet_data) = self.prepare_tablet_write(*tablet_metadata, tablet_value) {
                tablets_contents.push(tablet_data);
            } else {
                return create_result_from_error(TabletDataStorageStatus::Failed);
            }
''', '''            let tablet_contents = self.prepare_tablet_write(*tablet_metadata, tablet_value);
            if tablet_contents.is_err() {
                return create_result_from_error(TabletDataStorageStatus::Failed);
            }
            tablets_contents.push(tablet_contents.unwrap());
''')], None),
 ("d: store if let vacant", F, [('''            match self.tablet_cache_entries.entry(tablet_cache_key.clone()) {
                Vacant(map_entry) => {
                    // Create''', '''            if let Vacant(map_entry) = self.tablet_cache_entries.entry(tablet_cache_key.clone()) {
                    // Create'''), ('''                Occupied(_) => {
                    // Once created tablets are immutable and uri contains the hash of the
                    // contents, hence existing entry represents the same tablet. Wait for it.
                }
            }
''', ''), ('''                    self.out_messages.push(store_tablet_request);
                    map_entry.insert(tablet_cache_entry);
                }
''', '''                    self.out_messages.push(store_tablet_request);
                    map_entry.insert(tablet_cache_entry);
            }
''')], None),
 ("d: store index contents", F, [('''        for ((tablet_metadata, tablet_value), tablet_contents) in
            tablets_data.into_iter().zip(tablets_contents.into_iter())
        {
''', '''        let mut contents = tablets_contents.into_iter();
        for (tablet_metadata, tablet_value) in tablets_data.into_iter() {
            let tablet_contents = contents.next().unwrap();
''')], None),
 ("d: store enumerate contents", F, [('''        for ((tablet_metadata, tablet_value), tablet_contents) in
            tablets_data.into_iter().zip(tablets_contents.into_iter())
        {
''', '''        for (index, (tablet_metadata, tablet_value)) in tablets_data.into_iter().enumerate() {
            let tablet_contents = tablets_contents[index].clone();
''')], None),
 ("d: response guard", F, [('''                if let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) {
                    // Prepare loaded raw tablet contents to enter the cache in deserialized form.
                    let tablet_value = self.prepare_tablet_read(
                        self.tablet_cache_entries
                            .get(&tablet_cache_key)
                            .unwrap()
                            .get_metadata(),
                        tablet_contents,
                    );
''', '''                if let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) {
                    let tablet_metadata =
                        self.tablet_cache_entries[&tablet_cache_key].tablet_metadata.clone();
                    let tablet_value = self.prepare_tablet_read(&tablet_metadata, tablet_contents);
''')], None),
 ("d: response method", F, [('''            TabletDataCacheInMessage::StoreResponse(correlation_id, store_tablet_response) => {
                if let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) {
                    // Delegate tablet storing response to the corresponding tablet cache entry. Note
                    // that notifications to the tablet batches happens later when making progress.
                    self.tablet_cache_entries
                        .get_mut(&tablet_cache_key)
                        .unwrap()
                        .process_store_response(store_tablet_response);
                }
            }
''', '''            TabletDataCacheInMessage::StoreResponse(correlation_id, store_tablet_response) => {
                self.process_store(correlation_id, store_tablet_response)
            }
'''), ('''    fn prepare_tablet_write(
''', '''    fn process_store(&mut self, correlation_id: u64, store_tablet_response: StoreTabletResponse) {
        let Some(tablet_cache_key) = self.tablet_operations.remove(&correlation_id) else {
            return;
        };
        if let Some(tablet_cache_entry) = self.tablet_cache_entries.get_mut(&tablet_cache_key) {
            tablet_cache_entry.process_store_response(store_tablet_response);
        } else {
            panic!("Store response for unknown tablet");
        }
    }

    fn prepare_tablet_write(
''')], None),
 ("d: out replace", F, [('''        mem::take(&mut self.out_messages)
''', '''        mem::replace(&mut self.out_messages, Vec::new())
''')], None),
 ("d: out drain", F, [('''        mem::take(&mut self.out_messages)
''', '''        self.out_messages.drain(..).collect()
''')], None),
 ("d: entry default batch ids", F, [('''                tablet_metadata: tablet_metadata.clone(),
                cache_entry_state: TabletCacheEntryState::Load,
                tablet_batch_ids: Vec::new(),
            },
''', '''                tablet_metadata: tablet_metadata.clone(),
                cache_entry_state: TabletCacheEntryState::Load,
                tablet_batch_ids: Default::default(),
            },
''')], None),
 ("d: entry new", F, [('''        (
            Self {
                tablet_metadata: tablet_metadata.clone(),
                cache_entry_state: TabletCacheEntryState::Load,
                tablet_batch_ids: Vec::new(),
            },
            TabletDataCacheOutMessage::LoadRequest(
                correlation_id,
                LoadTabletRequest {
                    blob_uri: tablet_metadata.blob_uri.clone(),
                },
            ),
        )
''', '''        let entry = Self::create(tablet_metadata.clone(), TabletCacheEntryState::Load);
        let load_tablet_request = LoadTabletRequest {
            blob_uri: entry.tablet_metadata.blob_uri.clone(),
        };
        (
            entry,
            TabletDataCacheOutMessage::LoadRequest(correlation_id, load_tablet_request),
        )
    }

    fn create(tablet_metadata: TabletMetadata, cache_entry_state: TabletCacheEntryState<T>) -> Self {
        Self {
            tablet_metadata,
            cache_entry_state,
            tablet_batch_ids: Vec::new(),
        }
''')], None),
 ("d: take waiting if", F, [('''        match &self.cache_entry_state {
            TabletCacheEntryState::Cache(_) | TabletCacheEntryState::Error => {
                mem::take(&mut self.tablet_batch_ids)
            }
            _ => Vec::new(),
        }
''', '''        let is_pending = matches!(
            self.cache_entry_state,
            TabletCacheEntryState::Load | TabletCacheEntryState::Store(_)
        );
        if is_pending {
            return Vec::new();
        }
        mem::take(&mut self.tablet_batch_ids)
''')], None),
 ("d: load response state value", F, [('''                Some(TabletDataStorageStatus::Succeeded) => {
                    if let Ok(tablet_value) = tablet_value {
                        self.cache_entry_state =
                            TabletCacheEntryState::Cache(TabletData::<T>::create(tablet_value));
                    } else {
                        self.cache_entry_state = TabletCacheEntryState::Error;
                    }
                }
''', '''                Some(TabletDataStorageStatus::Succeeded) => {
                    self.cache_entry_state = match tablet_value {
                        Ok(tablet_value) => {
                            TabletCacheEntryState::Cache(TabletData::<T>::create(tablet_value))
                        }
                        Err(_) => TabletCacheEntryState::Error,
                    };
                }
''')], None),
 ("d: load response map_or", F, [('''                    if let Ok(tablet_value) = tablet_value {
                        self.cache_entry_state =
                            TabletCacheEntryState::Cache(TabletData::<T>::create(tablet_value));
                    } else {
                        self.cache_entry_state = TabletCacheEntryState::Error;
                    }
''', '''                    self.cache_entry_state = tablet_value
                        .map(|tablet_value| {
                            TabletCacheEntryState::Cache(TabletData::<T>::create(tablet_value))
                        })
                        .unwrap_or(TabletCacheEntryState::Error);
''')], None),
 ("d: load response guard first", F, [('''        if let TabletCacheEntryState::Load = &self.cache_entry_state {
            match''', '''        if !matches!(self.cache_entry_state, TabletCacheEntryState::Load) {
            panic!("Tablet cache entry doesn't expect load response");
        }
            match'''), ('''                _ => {
                    panic!("Unexpected load tablet status");
                }
            }
        } else {
            panic!("Tablet cache entry doesn't expect load response");
        }
''', '''                _ => {
                    panic!("Unexpected load tablet status");
                }
            }
''')], None),
 ("d: store response replace", F, [('''                Some(TabletDataStorageStatus::Succeeded) => {
                    self.cache_entry_state = TabletCacheEntryState::Cache(tablet_value.clone());
                }
''', '''                Some(TabletDataStorageStatus::Succeeded) => {
                    let stored_value = tablet_value.clone();
                    self.cache_entry_state = TabletCacheEntryState::Cache(stored_value);
                }
''')], None),
 ("d: store response tuple", F, [('''        if let TabletCacheEntryState::Store(tablet_value) = &self.cache_entry_state {
            match TabletDataStorageStatus::from_i32(store_tablet_response.status) {
                Some(TabletDataStorageStatus::Succeeded) => {
                    self.cache_entry_state = TabletCacheEntryState::Cache(tablet_value.clone());
                }
                Some(TabletDataStorageStatus::Failed) => {
                    self.cache_entry_state = TabletCacheEntryState::Error;
                }
                _ => {
                    panic!("Unexpected store tablet status");
                }
            }
        } else {
            panic!("Tablet cache entry doesn't expect store response");
        }
''', '''        let status = TabletDataStorageStatus::from_i32(store_tablet_response.status);
        self.cache_entry_state = match (&self.cache_entry_state, status) {
            (TabletCacheEntryState::Store(tablet_value), Some(TabletDataStorageStatus::Succeeded)) => {
                TabletCacheEntryState::Cache(tablet_value.clone())
            }
            (TabletCacheEntryState::Store(_), Some(TabletDataStorageStatus::Failed)) => {
                TabletCacheEntryState::Error
            }
            (TabletCacheEntryState::Store(_), _) => panic!("Unexpected store tablet status"),
            _ => panic!("Tablet cache entry doesn't expect store response"),
        };
''')], None),
 ("d: batch ready field", F, [('''        let has_completed = self.remaining_cache_entries == 0;
''', '''        let has_completed = self.is_ready();
''')], None),
 ("d: expect early", F, [('''        self.remaining_cache_entries = cache_entries;
        if cache_entries == 0 {
            // There is nothing to wait for.
            match &mut self.batch_state {
                TabletBatchState::Load(_, loaded_tablets_source) => {
                    loaded_tablets_source.set_result(Vec::new())
                }
                TabletBatchState::Store(stored_tablets_source) => {
                    stored_tablets_source.set_result(())
                }
                _ => {}
            }
            self.batch_state = TabletBatchState::Completed;
        }
''', '''        self.remaining_cache_entries = cache_entries;
        if cache_entries > 0 {
            return;
        }
        if let TabletBatchState::Load(_, source) = &mut self.batch_state {
            source.set_result(Vec::new());
        } else if let TabletBatchState::Store(source) = &mut self.batch_state {
            source.set_result(());
        }
        self.batch_state = TabletBatchState::Completed;
''')], None),
 ("d: add pending matches", F, [('''        match tablet_cache_entry.get_state() {
            TabletCacheEntryState::Load | TabletCacheEntryState::Store(_) => {
                tablet_cache_entry.register_waiting_batch(self.batch_id);
            }
            TabletCacheEntryState::Cache(_) | TabletCacheEntryState::Error => {
                self.resolve_pending_cache_entry(tablet_cache_entry);
            }
        }
''', '''        if matches!(
            tablet_cache_entry.get_state(),
            TabletCacheEntryState::Cache(_) | TabletCacheEntryState::Error
        ) {
            self.resolve_pending_cache_entry(tablet_cache_entry);
        } else {
            tablet_cache_entry.register_waiting_batch(self.batch_id);
        }
''')], None),
 ("d: resolve nested", F, [('''        let updated_batch_operation = match (tablet_cache_entry.get_state(), &mut self.batch_state)
        {
            (
                TabletCacheEntryState::Cache(tablet_value),
                TabletBatchState::Load(loaded_tablets, loaded_tablets_source),
            ) => {
                loaded_tablets.push((
                    tablet_cache_entry.get_metadata().clone(),
                    tablet_value.clone(),
                ));
                if has_completed {
                    loaded_tablets_source.set_result(mem::take(loaded_tablets));
                    Some(TabletBatchState::Completed)
                } else {
                    None
                }
            }
            (TabletCacheEntryState::Error, TabletBatchState::Load(_, loaded_tablets_source)) => {
                loaded_tablets_source.set_error(TabletDataStorageStatus::Failed);
                Some(TabletBatchState::Error)
            }
            (TabletCacheEntryState::Cache(_), TabletBatchState::Store(stored_tablets_source)) => {
                if has_completed {
                    stored_tablets_source.set_result(());
                    Some(TabletBatchState::Completed)
                } else {
                    None
                }
            }
            (TabletCacheEntryState::Error, TabletBatchState::Store(stored_tablets_source)) => {
                stored_tablets_source.set_error(TabletDataStorageStatus::Failed);
                Some(TabletBatchState::Error)
            }
            _ => None,
        };

        if updated_batch_operation.is_some() {
            self.batch_state = updated_batch_operation.unwrap();
        }
''', '''        match tablet_cache_entry.get_state() {
            TabletCacheEntryState::Cache(tablet_value) => {
                match &mut self.batch_state {
                    TabletBatchState::Load(loaded_tablets, loaded_tablets_source) => {
                        let tablet_metadata = tablet_cache_entry.get_metadata().clone();
                        loaded_tablets.push((tablet_metadata, tablet_value.clone()));
                        if !has_completed {
                            return;
                        }
                        loaded_tablets_source.set_result(mem::take(loaded_tablets));
                    }
                    TabletBatchState::Store(stored_tablets_source) => {
                        if !has_completed {
                            return;
                        }
                        stored_tablets_source.set_result(());
                    }
                    _ => return,
                }
                self.batch_state = TabletBatchState::Completed;
            }
            TabletCacheEntryState::Error => {
                match &mut self.batch_state {
                    TabletBatchState::Load(_, source) => {
                        source.set_error(TabletDataStorageStatus::Failed)
                    }
                    TabletBatchState::Store(source) => {
                        source.set_error(TabletDataStorageStatus::Failed)
                    }
                    _ => return,
                }
                self.batch_state = TabletBatchState::Error;
            }
            _ => {}
        }
''')], None),
 ("d: resolve fail method", F, [('''            (TabletCacheEntryState::Error, TabletBatchState::Load(_, loaded_tablets_source)) => {
                loaded_tablets_source.set_error(TabletDataStorageStatus::Failed);
                Some(TabletBatchState::Error)
            }
''', '''            (TabletCacheEntryState::Error, TabletBatchState::Load(_, loaded_tablets_source)) => {
                Self::fail(loaded_tablets_source)
            }
'''), ('''    fn resolve_pending_cache_entry(&mut self''', '''    fn fail<R: Clone>(source: &mut ResultSource<R, TabletDataStorageStatus>) -> Option<TabletBatchState<T>> {
        source.set_error(TabletDataStorageStatus::Failed);
        Some(TabletBatchState::Error)
    }

    fn resolve_pending_cache_entry(&mut self''')], None),
 ("d: uri concat", F, [('''    format!(
        "{}_{}_{}",
        tablet_id,
        tablet_version,
        URL_SAFE_NO_PAD.encode(&blob_hash)
    )
''', '''    let encoded_hash = URL_SAFE_NO_PAD.encode(&blob_hash);
    format!("{tablet_id}_{tablet_version}_{encoded_hash}")
''')], None),
 ("d: key tuple struct fields", F, [('''        Self {
            tablet_id: tablet_metadata.tablet_id,
            uri: tablet_metadata.blob_uri.clone(),
        }
''', '''        let uri = tablet_metadata.blob_uri.to_owned();
        let tablet_id = tablet_metadata.tablet_id;
        Self { uri, tablet_id }
''')], None),
 ("d: retain named", F, [('''            .retain(|_, tablet_batch| !tablet_batch.is_ready());
''', '''            .retain(|_, tablet_batch| tablet_batch.remaining_cache_entries > 0);
''')], None),
]
