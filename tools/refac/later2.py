refac("array-d", ["C01", "C02"], "array/array.c", [
("""	for( size_t i=0, n = vec->len-1; i < (vec->len/2); i++, n-- ) {
		for( size_t x=0; x < datasize; x++ ) {
			size_t       const i_offs = (i * datasize) + x;
			size_t       const n_offs = (n * datasize) + x;
			uint_fast8_t const data   = vec->table[n_offs];
			vec->table[n_offs] = vec->table[i_offs];
			vec->table[i_offs] = data;
		}
	}
	return true;""", """	size_t const half = vec->len / 2;
	for( size_t i=0; i < half; i++ ) {
		uint8_t *const a = &vec->table[i * datasize];
		uint8_t *const b = &vec->table[(vec->len - 1 - i) * datasize];
		for( size_t x=0; x < datasize; x++ ) {
			uint8_t const tmp = a[x];
			a[x] = b[x];
			b[x] = tmp;
		}
	}
	return true;"""),
("""	size_t count = 0;
	for( size_t i=0; i < vec->len; i++ ) {
		count += !memcmp(&vec->table[i * datasize], val, datasize);
	}
	return count;""", """	size_t count = 0;
	uint8_t const *item = vec->table;
	for( size_t left = vec->len; left > 0; left--, item += datasize ) {
		if( memcmp(item, val, datasize)==0 ) {
			count++;
		}
	}
	return count;"""),
("""	for( size_t i=starting_index; i < vec->len; i++ ) {
		if( !memcmp(&vec->table[i * datasize], val, datasize) ) {
			return i;
		}
	}
	return SIZE_MAX;""", """	size_t found = SIZE_MAX;
	for( size_t i=starting_index; i < vec->len && found==SIZE_MAX; i++ ) {
		if( memcmp(val, &vec->table[i * datasize], datasize)==0 ) {
			found = i;
		}
	}
	return found;"""),
("""	for( size_t i=0; i < vec->cap; i++ ) {
		memcpy(&vec->table[i * datasize], val, datasize);
	}
	vec->len = vec->cap;
	return true;""", """	vec->len = 0;
	while( vec->len < vec->cap ) {
		harbol_array_insert(vec, val, datasize);
	}
	return true;"""),
("""	size_t const old_cap = vec->cap;
	harbol_array_resizer(vec, (vec->cap==0? ARRAY_DEFAULT_SIZE : next_pow_of_2(vec->cap << 1)), datasize);
	return vec->cap > old_cap;""", """	size_t const old_cap = vec->cap;
	size_t new_cap = ARRAY_DEFAULT_SIZE;
	if( old_cap != 0 ) {
		new_cap = next_pow_of_2(old_cap * 2);
	}
	harbol_array_resizer(vec, new_cap, datasize);
	return old_cap < vec->cap;"""),
("""	return( vec->table==NULL || vec->len==0 )? NULL : &vec->table[--vec->len * datasize];""", """	if( harbol_array_empty(vec) ) {
		return NULL;
	}
	vec->len -= 1;
	return vec->table + vec->len * datasize;"""),
("""	} else if( index==vec->len-1 ) {
		memset(&vec->table[--vec->len * datasize], 0, datasize);
		return true;
	}
	return harbol_array_shift_up(vec, index, datasize, 1);""", """	}
	size_t const last = vec->len - 1;
	if( index != last ) {
		return harbol_array_shift_up(vec, index, datasize, 1);
	}
	memset(&vec->table[last * datasize], 0, datasize);
	vec->len = last;
	return true;"""),
])
refac("deque-c", ["C08", "C20"], "deque/deque.c", [
("""	for( size_t i=0; i < init_size; i++ ) {
		deque->prevs[i] = i - 1;
		deque->nexts[i] = i + 1;
	}
	if( deque->cap > 0 ) {
		deque->nexts[deque->cap - 1] = SIZE_MAX;
	}
	deque->head = deque->tail = SIZE_MAX;
	deque->freed = deque->cap - 1;
	return true;""", """	for( size_t i=0; i < init_size; i++ ) {
		deque->prevs[i] = i - 1;
		deque->nexts[i] = (i + 1 < init_size)? i + 1 : SIZE_MAX;
	}
	deque->freed = init_size - 1;
	deque->head = SIZE_MAX;
	deque->tail = SIZE_MAX;
	return true;"""),
("""	} else if( deque->freed==SIZE_MAX ) {
		deque->freed = i;
		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
	} else {
		deque->prevs[i] = deque->freed;
		deque->nexts[i] = SIZE_MAX;
		deque->nexts[deque->freed] = i;
		deque->freed = i;
	}""", """	}
	size_t const last = deque->freed;
	deque->nexts[i] = SIZE_MAX;
	deque->prevs[i] = last;
	if( last != SIZE_MAX ) {
		deque->nexts[last] = i;
	}
	deque->freed = i;"""),
("""	size_t const n = deque->head;
	deque->head = deque->nexts[n];
	deque->nexts[n] = deque->prevs[n] = SIZE_MAX;
	
	memcpy(val, deque->datum[n], datasize);
	free(deque->datum[n]); deque->datum[n] = NULL;
	
	_harbol_deque_free_node(deque, n);
	if( deque->head != SIZE_MAX ) {
		deque->prevs[deque->head] = SIZE_MAX;
	} else {
		deque->tail = SIZE_MAX;
	}
	deque->len--;
	return true;""", """	size_t const n = deque->head;
	size_t const second = deque->nexts[n];
	void *const data = deque->datum[n];
	memcpy(val, data, datasize);
	deque->datum[n] = NULL;
	free(data);
	if( second==SIZE_MAX ) {
		deque->head = deque->tail = SIZE_MAX;
	} else {
		deque->prevs[second] = SIZE_MAX;
		deque->head = second;
	}
	_harbol_deque_free_node(deque, n);
	--deque->len;
	return true;"""),
("""	if( deque->head==SIZE_MAX ) {
		deque->head = deque->tail = i;
		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
	} else {
		deque->nexts[i] = deque->head;
		deque->prevs[i] = SIZE_MAX;
		deque->prevs[deque->head] = i;
		deque->head = i;
	}
	deque->len++;""", """	deque->prevs[i] = SIZE_MAX;
	deque->nexts[i] = deque->head;
	if( deque->head==SIZE_MAX ) {
		deque->tail = i;
	} else {
		deque->prevs[deque->head] = i;
	}
	deque->head = i;
	deque->len += 1;"""),
("""	for( size_t i=0; i < deque->cap; i++ ) {
		free(deque->datum[i]); deque->datum[i] = NULL;
	}
	harbol_multi_cleanup(3,""", """	void **const datum = ( void** )(deque->datum);
	for( size_t i=deque->cap; i > 0; i-- ) {
		free(datum[i - 1]);
	}
	harbol_multi_cleanup(3,"""),
])
refac("map-d", ["C06", "C07", "C20"], "map/map.c", [
("""	while( map->buckets[bkt_idx] != SIZE_MAX ) {
		bkt_idx++;
		if( bkt_idx >= mask ) {
			bkt_idx &= mask;
		}
	}
	map->buckets[bkt_idx] = n;
	return true;""", """	for( ; map->buckets[bkt_idx] != SIZE_MAX; bkt_idx = (bkt_idx + 1) & mask );
	map->buckets[bkt_idx] = n;
	return true;"""),
("""	size_t const val_idx = map->buckets[bkt_idx];
	if( val_idx==SIZE_MAX ) {
		return SIZE_MAX;
	} else if( map->keys[val_idx][0]==desired_key[0] && map->keylens[val_idx]==keylen && !memcmp(map->keys[val_idx], desired_key, keylen) ) {
		return val_idx;
	}
	
	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
		size_t const idx = map->buckets[i];
		if( idx==SIZE_MAX ) {
			continue;
		} else if( map->keys[idx][0]==desired_key[0] && map->keylens[idx]==keylen && !memcmp(desired_key, map->keys[idx], keylen) ) {
			return idx;
		}
	}
	return SIZE_MAX;""", """	if( map->buckets[bkt_idx]==SIZE_MAX ) {
		return SIZE_MAX;
	}
	size_t i = bkt_idx;
	do {
		size_t const idx = map->buckets[i];
		if( idx != SIZE_MAX && map->keylens[idx]==keylen && memcmp(desired_key, map->keys[idx], keylen)==0 ) {
			return idx;
		}
		i = (i+1) & mask;
	} while( i != bkt_idx );
	return SIZE_MAX;"""),
("""	for( size_t i=0; i < map->len; i++ ) {
		uint8_t const *const restrict desired_val = val;
		if( map->datum[i][0]==desired_val[0] && map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
			return i;
		}
	}
	return SIZE_MAX;""", """	size_t i = 0;
	while( i < map->len ) {
		if( map->datalens[i]==datasize && !memcmp(map->datum[i], val, datasize) ) {
			break;
		}
		i++;
	}
	return( i < map->len )? i : SIZE_MAX;"""),
("""	uint8_t *const data = dup_data(val, datasize);
	if( data==NULL ) {
		return false;
	}
	free(map->datum[index]);
	map->datum[index] = data;
	map->datalens[index] = datasize;
	return true;""", """	uint8_t *const old = map->datum[index];
	uint8_t *const data = dup_data(val, datasize);
	if( data != NULL ) {
		map->datalens[index] = datasize;
		map->datum[index] = data;
		free(old);
		return true;
	}
	return false;"""),
("""	if( !harbol_map_has_key(map, key, keylen) ) {
		return harbol_map_insert(map, key, keylen, val, datasize);
	}
	
	size_t const entry = harbol_map_get_entry_index(map, key, keylen);
	return harbol_map_idx_set(map, entry, val, datasize);""", """	size_t const entry = harbol_map_get_entry_index(map, key, keylen);
	return( entry==SIZE_MAX )? harbol_map_insert(map, key, keylen, val, datasize) : harbol_map_idx_set(map, entry, val, datasize);"""),
("""	for( size_t i=0; i < map->len; i++ ) {
		free(map->keys[i]);  map->keys[i] = NULL;
		free(map->datum[i]); map->datum[i] = NULL;
	}""", """	while( map->len > 0 ) {
		size_t const last = --map->len;
		free(map->datum[last]);
		free(map->keys[last]);
	}"""),
])
