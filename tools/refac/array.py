refac("array-loops", ["C01", "C02"], "array/array.c", [
("""	for( size_t i=0; i < vec->cap; i++ ) {
		memcpy(&vec->table[i * datasize], val, datasize);
	}
	vec->len = vec->cap;""", """	vec->len = vec->cap;
	uint8_t *slot = vec->table;
	for( size_t left=vec->cap; left > 0; --left ) {
		memcpy(slot, val, datasize);
		slot += datasize;
	}"""),
("""	for( size_t i=0, n = vec->len-1; i < (vec->len/2); i++, n-- ) {
		for( size_t x=0; x < datasize; x++ ) {
			size_t       const i_offs = (i * datasize) + x;
			size_t       const n_offs = (n * datasize) + x;
			uint_fast8_t const data   = vec->table[n_offs];
			vec->table[n_offs] = vec->table[i_offs];
			vec->table[i_offs] = data;
		}
	}""", """	size_t const half = vec->len / 2;
	for( size_t i=0; i < half; ++i ) {
		uint8_t *const a = &vec->table[i * datasize];
		uint8_t *const b = &vec->table[(vec->len - 1 - i) * datasize];
		for( size_t x=0; x < datasize; ++x ) {
			uint8_t const tmp = a[x];
			a[x] = b[x];
			b[x] = tmp;
		}
	}"""),
("""	for( size_t i=0; i < vec->len; i++ ) {
		count += !memcmp(&vec->table[i * datasize], val, datasize);
	}
	return count;""", """	size_t i = 0;
	while( i < vec->len ) {
		if( memcmp(&vec->table[i * datasize], val, datasize)==0 ) {
			++count;
		}
		++i;
	}
	return count;"""),
("""	for( size_t i=starting_index; i < vec->len; i++ ) {
		if( !memcmp(&vec->table[i * datasize], val, datasize) ) {
			return i;
		}
	}
	return SIZE_MAX;""", """	size_t found = SIZE_MAX;
	for( size_t i=starting_index; i < vec->len; ++i ) {
		if( memcmp(val, &vec->table[i * datasize], datasize)==0 ) {
			found = i;
			break;
		}
	}
	return found;"""),
("""	size_t const index = vec->len;
	vec->len++;
	memcpy(&vec->table[index * datasize], val, datasize);
	return index;""", """	memcpy(&vec->table[vec->len * datasize], val, datasize);
	return vec->len++;"""),
])
refac("array-helpers", ["C01", "C02"], "array/array.c", [
("""/// array data ops.
HARBOL_EXPORT bool harbol_array_insert(struct HarbolArray *const vec, void const *const val, size_t const datasize) {
	if( vec->table==NULL || vec->len >= vec->cap ) {
		return false;
	}
	memcpy(&vec->table[vec->len++ * datasize], val, datasize);
	return true;
}""", """static uint8_t *array_slot(struct HarbolArray const *const vec, size_t const index, size_t const datasize) {
	return vec->table + index * datasize;
}
static bool array_has_room(struct HarbolArray const *const vec) {
	return vec->table != NULL && vec->len < vec->cap;
}
static void array_swap_slots(uint8_t *a, uint8_t *b, size_t const datasize) {
	for( size_t x=0; x < datasize; x++ ) {
		uint8_t const data = b[x];
		b[x] = a[x];
		a[x] = data;
	}
}
static bool array_drop_last(struct HarbolArray *const vec, size_t const datasize) {
	vec->len--;
	memset(array_slot(vec, vec->len, datasize), 0, datasize);
	return true;
}
/// array data ops.
HARBOL_EXPORT bool harbol_array_insert(struct HarbolArray *const vec, void const *const val, size_t const datasize) {
	if( !array_has_room(vec) ) {
		return false;
	}
	memcpy(array_slot(vec, vec->len, datasize), val, datasize);
	vec->len += 1;
	return true;
}"""),
("""		for( size_t x=0; x < datasize; x++ ) {
			size_t       const i_offs = (i * datasize) + x;
			size_t       const n_offs = (n * datasize) + x;
			uint_fast8_t const data   = vec->table[n_offs];
			vec->table[n_offs] = vec->table[i_offs];
			vec->table[i_offs] = data;
		}
""", """		array_swap_slots(array_slot(vec, i, datasize), array_slot(vec, n, datasize), datasize);
"""),
("""	} else if( index==vec->len-1 ) {
		memset(&vec->table[--vec->len * datasize], 0, datasize);
		return true;
	}
	return harbol_array_shift_up(vec, index, datasize, 1);""", """	}
	if( index + 1==vec->len ) {
		return array_drop_last(vec, datasize);
	}
	return array_shift_up(vec->table, &vec->len, index, datasize, 1);"""),
("""	size_t const index = harbol_array_index_of(vec, val, datasize, 0);
	return( index != SIZE_MAX )? harbol_array_del_by_index(vec, index, datasize) : false;""", """	size_t const index = harbol_array_index_of(vec, val, datasize, 0);
	if( index==SIZE_MAX ) {
		return false;
	}
	return harbol_array_del_by_index(vec, index, datasize);"""),
("""	if( vec->table==NULL || index >= vec->len ) {
		return false;
	}
	memcpy(val, &vec->table[index * datasize], datasize);
	return true;""", """	void const *const item = harbol_array_get(vec, index, datasize);
	if( item==NULL ) {
		return false;
	}
	memcpy(val, item, datasize);
	return true;"""),
])
refac("array-rev", ["C01"], "array/array.c", [
("""	for( size_t i=0, n = vec->len-1; i < (vec->len/2); i++, n-- ) {
		for( size_t x=0; x < datasize; x++ ) {
			size_t       const i_offs = (i * datasize) + x;
			size_t       const n_offs = (n * datasize) + x;
			uint_fast8_t const data   = vec->table[n_offs];
			vec->table[n_offs] = vec->table[i_offs];
			vec->table[i_offs] = data;
		}
	}""", """	if( vec->len==0 ) {
		return true;
	}
	size_t i = 0, n = vec->len - 1;
	while( i < n ) {
		size_t const i_base = i * datasize, n_base = n * datasize;
		for( size_t x=0; x != datasize; x++ ) {
			uint_fast8_t const data = vec->table[n_base + x];
			vec->table[n_base + x] = vec->table[i_base + x];
			vec->table[i_base + x] = data;
		}
		i++; n--;
	}"""),
("""	for( size_t i=0; i < vec->cap; i++ ) {
		memcpy(&vec->table[i * datasize], val, datasize);
	}""", """	uint8_t *p = vec->table, *const end = p + vec->cap * datasize;
	for( size_t i=0; i != vec->cap; i++, p += datasize ) {
		memcpy(p, val, datasize);
	}
	(void)end;"""),
("""	size_t count = 0;
	for( size_t i=0; i < vec->len; i++ ) {
		count += !memcmp(&vec->table[i * datasize], val, datasize);
	}
	return count;""", """	size_t count = 0;
	for( size_t i=vec->len; i > 0; i-- ) {
		if( !memcmp(&vec->table[(i - 1) * datasize], val, datasize) ) {
			count++;
		}
	}
	return count;"""),
("""	for( size_t i=starting_index; i < vec->len; i++ ) {
		if( !memcmp(&vec->table[i * datasize], val, datasize) ) {
			return i;
		}
	}
	return SIZE_MAX;""", """	size_t i = starting_index;
	while( i < vec->len && memcmp(&vec->table[i * datasize], val, datasize) != 0 ) {
		i++;
	}
	return( i < vec->len )? i : SIZE_MAX;"""),
])
