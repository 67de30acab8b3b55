refac("deque-a", ["C08"], "deque/deque.c", [
("""HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {""", """static void _harbol_deque_chain_all(struct HarbolDeque *const deque) {
	for( size_t i=0; i < deque->cap; i++ ) {
		deque->prevs[i] = i - 1;
		deque->nexts[i] = i + 1;
	}
	if( deque->cap > 0 ) {
		deque->nexts[deque->cap - 1] = SIZE_MAX;
	}
	deque->head = deque->tail = SIZE_MAX;
	deque->freed = deque->cap - 1;
}
static size_t _harbol_deque_alloc_node(struct HarbolDeque *deque);
static void _harbol_deque_free_node(struct HarbolDeque *deque, size_t i);
static bool _harbol_deque_resize(struct HarbolDeque *deque, size_t new_size);
static size_t _harbol_deque_new_node(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap * 2) ) {
		return SIZE_MAX;
	}
	size_t const i = _harbol_deque_alloc_node(deque);
	if( i==SIZE_MAX ) {
		return SIZE_MAX;
	}
	uint8_t *const data = dup_data(val, datasize);
	deque->datum[i] = data;
	if( data==NULL ) {
		_harbol_deque_free_node(deque, i);
		return SIZE_MAX;
	}
	return i;
}
HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {"""),
("""	deque->cap = init_size;
	for( size_t i=0; i < init_size; i++ ) {
		deque->prevs[i] = i - 1;
		deque->nexts[i] = i + 1;
	}
	if( deque->cap > 0 ) {
		deque->nexts[deque->cap - 1] = SIZE_MAX;
	}
	deque->head = deque->tail = SIZE_MAX;
	deque->freed = deque->cap - 1;
	return true;""", """	deque->cap = init_size;
	_harbol_deque_chain_all(deque);
	return true;"""),
("""	for( size_t i=0; i < deque->cap; i++ ) {
		free(deque->datum[i]); deque->datum[i] = NULL;
		deque->prevs[i] = i - 1;
		deque->nexts[i] = i + 1;
	}
	if( deque->cap > 0 ) {
		deque->nexts[deque->cap - 1] = SIZE_MAX;
	}
	deque->head = deque->tail = SIZE_MAX;
	deque->freed = deque->cap - 1;
	deque->len = 0;""", """	for( size_t i=0; i < deque->cap; i++ ) {
		free(deque->datum[i]);
		deque->datum[i] = NULL;
	}
	deque->len = 0;
	_harbol_deque_chain_all(deque);"""),
("""HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
		return SIZE_MAX;
	}
	
	size_t const i = _harbol_deque_alloc_node(deque);
	if( i==SIZE_MAX ) {
		return SIZE_MAX;
	}
	
	deque->datum[i] = dup_data(val, datasize);
	if( deque->datum[i]==NULL ) {
		_harbol_deque_free_node(deque, i);
		return SIZE_MAX;
	}""", """HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
	size_t const i = _harbol_deque_new_node(deque, val, datasize);
	if( i==SIZE_MAX ) {
		return SIZE_MAX;
	}"""),
("""HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
		return SIZE_MAX;
	}
	
	size_t const i = _harbol_deque_alloc_node(deque);
	if( i==SIZE_MAX ) {
		return SIZE_MAX;
	}
	
	deque->datum[i] = dup_data(val, datasize);
	if( deque->datum[i]==NULL ) {
		_harbol_deque_free_node(deque, i);
		return SIZE_MAX;
	}
	if( deque->tail==SIZE_MAX ) {
		deque->head = deque->tail = i;
		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
	} else {
		deque->prevs[i] = deque->tail;
		deque->nexts[i] = SIZE_MAX;
		deque->nexts[deque->tail] = i;
		deque->tail = i;
	}
	deque->len++;
	return i;""", """HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
	size_t const i = _harbol_deque_new_node(deque, val, datasize);
	if( i==SIZE_MAX ) {
		return SIZE_MAX;
	}
	deque->nexts[i] = SIZE_MAX;
	deque->prevs[i] = deque->tail;
	if( deque->tail==SIZE_MAX ) {
		deque->head = i;
	} else {
		deque->nexts[deque->tail] = i;
	}
	deque->tail = i;
	deque->len += 1;
	return i;"""),
("""	size_t const n = deque->tail;
	deque->tail = deque->prevs[n];
	deque->nexts[n] = deque->prevs[n] = SIZE_MAX;
	
	memcpy(val, deque->datum[n], datasize);
	free(deque->datum[n]); deque->datum[n] = NULL;
	
	_harbol_deque_free_node(deque, n);
	if( deque->tail != SIZE_MAX ) {
		deque->nexts[deque->tail] = SIZE_MAX;
	} else {
		deque->head = SIZE_MAX;
	}
	deque->len--;
	return true;""", """	size_t const n = deque->tail;
	size_t const before = deque->prevs[n];
	memcpy(val, deque->datum[n], datasize);
	free(deque->datum[n]);
	deque->datum[n] = NULL;
	deque->len--;
	deque->tail = before;
	if( before==SIZE_MAX ) {
		deque->head = SIZE_MAX;
	} else {
		deque->nexts[before] = SIZE_MAX;
	}
	_harbol_deque_free_node(deque, n);
	return true;"""),
("""	} else if( deque->freed==SIZE_MAX ) {
		deque->freed = i;
		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
	} else {
		deque->prevs[i] = deque->freed;
		deque->nexts[i] = SIZE_MAX;
		deque->nexts[deque->freed] = i;
		deque->freed = i;
	}""", """	}
	deque->prevs[i] = deque->freed;
	deque->nexts[i] = SIZE_MAX;
	if( deque->freed != SIZE_MAX ) {
		deque->nexts[deque->freed] = i;
	}
	deque->freed = i;"""),
("""	for( size_t i=old_cap; i < deque->cap; i++ ) {
		deque->prevs[i] = ( i==old_cap )? deque->freed : i - 1;
		deque->nexts[i] = i + 1;
	}
	deque->nexts[deque->cap - 1] = SIZE_MAX;
	deque->freed = deque->cap - 1;
	return true;""", """	size_t prev = deque->freed;
	for( size_t i=old_cap; i < new_size; i++ ) {
		deque->prevs[i] = prev;
		deque->nexts[i] = ( i + 1 < new_size )? i + 1 : SIZE_MAX;
		prev = i;
	}
	deque->freed = new_size - 1;
	return true;"""),
])
refac("deque-b", ["C08"], "deque/deque.c", [
("""	for( size_t i=old_cap; i < deque->cap; i++ ) {
		deque->prevs[i] = ( i==old_cap )? deque->freed : i - 1;
		deque->nexts[i] = i + 1;
	}
	deque->nexts[deque->cap - 1] = SIZE_MAX;""", """	deque->prevs[old_cap] = deque->freed;
	deque->nexts[old_cap] = old_cap + 1;
	for( size_t i=old_cap + 1; i < deque->cap; i++ ) {
		deque->prevs[i] = i - 1;
		deque->nexts[i] = i + 1;
	}
	deque->nexts[deque->cap - 1] = SIZE_MAX;"""),
("""	deque->cap = init_size;
	for( size_t i=0; i < init_size; i++ ) {
		deque->prevs[i] = i - 1;
		deque->nexts[i] = i + 1;
	}
""", """	deque->cap = init_size;
	size_t i = 0;
	while( i != init_size ) {
		deque->nexts[i] = i + 1;
		deque->prevs[i] = i==0? SIZE_MAX : i - 1;
		i++;
	}
"""),
("""	size_t const i = deque->freed;
	deque->freed = deque->prevs[i];
	if( deque->freed != SIZE_MAX && deque->freed < deque->cap ) {
		deque->nexts[deque->freed] = SIZE_MAX;
	}
	return i;""", """	size_t const i = deque->freed;
	size_t const rest = deque->prevs[i];
	if( rest < deque->cap ) {
		deque->nexts[rest] = SIZE_MAX;
	}
	deque->freed = rest;
	return i;"""),
])
refac("map-a", ["C06", "C07"], "map/map.c", [
("""	uint8_t const *const restrict desired_key = key;
	size_t const hash    = array_hash(desired_key, keylen, map->seed);
	size_t const mask    = map->cap - 1;
	size_t const bkt_idx = hash & mask;
	size_t const val_idx = map->buckets[bkt_idx];
	if( val_idx==SIZE_MAX ) {
		return SIZE_MAX;
	} else if( map->keys[val_idx][0]==desired_key[0] && map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
		return val_idx;
	}
	
	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
		size_t const idx = map->buckets[i];
		if( idx==SIZE_MAX ) {
			continue;
		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
			return idx;
		}
	}
	return SIZE_MAX;""", """	uint8_t const *const desired_key = key;
	size_t const mask = map->cap - 1;
	size_t const home = array_hash(desired_key, keylen, map->seed) & mask;
	size_t       i    = home;
	do {
		size_t const idx = map->buckets[i];
		if( idx==SIZE_MAX ) {
			if( i==home ) {
				return SIZE_MAX;
			}
		} else if( _harbol_map_same_key(map, idx, desired_key, keylen) ) {
			return idx;
		}
		i = (i + 1) & mask;
	} while( i != home );
	return SIZE_MAX;"""),
("""HARBOL_EXPORT size_t harbol_map_get_entry_index(""", """static bool _harbol_map_same_key(struct HarbolMap const *const map, size_t const idx, uint8_t const *const key, size_t const keylen) {
	return map->keylens[idx]==keylen && memcmp(map->keys[idx], key, keylen)==0;
}
HARBOL_EXPORT size_t harbol_map_get_entry_index("""),
("""	size_t const mask    = map->cap - 1;
	size_t       bkt_idx = map->hashes[n] & mask;
	while( map->buckets[bkt_idx] != SIZE_MAX ) {
		bkt_idx++;
		if( bkt_idx >= mask ) {
			bkt_idx &= mask;
		}
	}
	map->buckets[bkt_idx] = n;
	return true;""", """	size_t const mask = map->cap - 1;
	for( size_t b=map->hashes[n] & mask;; b = (b + 1) & mask ) {
		if( map->buckets[b]==SIZE_MAX ) {
			map->buckets[b] = n;
			return true;
		}
	}"""),
])
refac("map-b", ["C06", "C07"], "map/map.c", [
("""HARBOL_EXPORT struct HarbolMap *harbol_map_new(size_t const init_size) {""", """static void _harbol_map_empty_buckets(struct HarbolMap *const map) {
	memset(map->buckets, 0xFF, map->cap * sizeof *map->buckets);
}
HARBOL_EXPORT struct HarbolMap *harbol_map_new(size_t const init_size) {"""),
("""	map->cap = init_size;
	map->len = 0;
	
	for( size_t i=0; i < map->cap; i++ ) {
		map->buckets[i] = SIZE_MAX;
	}
	""", """	map->len = 0;
	map->cap = init_size;
	_harbol_map_empty_buckets(map);
"""),
("""	map->cap = new_size;
	for( size_t i=0; i < map->cap; i++ ) {
		map->buckets[i] = SIZE_MAX;
	}
	
	bool res = true;
	for( size_t i=0; i < map->len; i++ ) {
		res &= _harbol_map_insert_entry(map, i);
	}
	return res;""", """	map->cap = new_size;
	_harbol_map_empty_buckets(map);
	for( size_t i=0; i < map->len; i++ ) {
		if( !_harbol_map_insert_entry(map, i) ) {
			return false;
		}
	}
	return true;"""),
("""	for( size_t i=0; i < map->len; i++ ) {
		uint8_t const *const restrict desired_val = val;
		if( map->datum[i][0]==desired_val[0] && map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
			return i;
		}
	}
	return SIZE_MAX;""", """	size_t i = 0;
	while( i < map->len ) {
		if( map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
			break;
		}
		i++;
	}
	return i==map->len? SIZE_MAX : i;"""),
("""	map->keys[val_idx] = dup_data(key, keylen);
	if( map->keys[val_idx]==NULL ) {
		return false;
	}
	
	map->datum[val_idx] = dup_data(val, datasize);
	if( map->datum[val_idx]==NULL ) {
		free(map->keys[val_idx]); map->keys[val_idx] = NULL;
		return false;
	}
	
	map->hashes[val_idx] = array_hash(key, keylen, map->seed);
	if( !_harbol_map_insert_entry(map, val_idx) ) {
		free(map->keys[val_idx]); map->keys[val_idx] = NULL;
		free(map->datum[val_idx]); map->datum[val_idx] = NULL;
		map->hashes[val_idx] = 0;
		return false;
	}
	map->keylens[val_idx]  = keylen;
	map->datalens[val_idx] = datasize;
	map->len++;
	return true;""", """	uint8_t *const key_copy = dup_data(key, keylen);
	if( key_copy==NULL ) {
		return false;
	}
	uint8_t *const val_copy = dup_data(val, datasize);
	if( val_copy==NULL ) {
		free(key_copy);
		return false;
	}
	map->keys[val_idx] = key_copy;
	map->datum[val_idx] = val_copy;
	map->keylens[val_idx]  = keylen;
	map->datalens[val_idx] = datasize;
	map->hashes[val_idx] = array_hash(key, keylen, map->seed);
	map->len = val_idx + 1;
	return _harbol_map_insert_entry(map, val_idx);"""),
("""	for( size_t i=0; i < map->len; i++ ) {
		free(map->keys[i]);  map->keys[i] = NULL;
		free(map->datum[i]); map->datum[i] = NULL;
	}
	harbol_multi_cleanup(6, &map->keys, &map->keylens, &map->datum, &map->hashes, &map->buckets, &map->datalens);
	map->len = map->cap = 0;""", """	while( map->len > 0 ) {
		map->len--;
		free(map->keys[map->len]);
		free(map->datum[map->len]);
	}
	harbol_multi_cleanup(6, &map->keys, &map->keylens, &map->datum, &map->datalens, &map->hashes, &map->buckets);
	map->cap = 0;"""),
("""	if( !harbol_map_has_key(map, key, keylen) ) {
		return harbol_map_insert(map, key, keylen, val, datasize);
	}
	
	size_t const entry = harbol_map_get_entry_index(map, key, keylen);
	return harbol_map_idx_set(map, entry, val, datasize);""", """	size_t const entry = harbol_map_get_entry_index(map, key, keylen);
	return entry==SIZE_MAX? harbol_map_insert(map, key, keylen, val, datasize) : harbol_map_idx_set(map, entry, val, datasize);"""),
])
refac("map-c", ["C06", "C07"], "map/map.c", [
("""	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
		size_t const idx = map->buckets[i];
		if( idx==SIZE_MAX ) {
			continue;
		} else""", """	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
		size_t const idx = map->buckets[i];
		if( idx==SIZE_MAX ) {
			return SIZE_MAX;
		} else"""),
])
