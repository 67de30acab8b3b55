H = "harbol_common_includes.h"
refac("common-links", ["C18"], H, [
("""	struct HarbolLink
		*const restrict node1 = n1,
		*const          node2 = n2
	;
	node2->a = node1->a;
	node1->a = node2;
}""", """	struct HarbolLink *const first  = n1;
	struct HarbolLink *const second = n2;
	struct HarbolLink *const rest   = harbol_link_get_a(first);
	harbol_link_set_a(first, second);
	harbol_link_set_a(second, rest);
}"""),
("""	node->a = NULL;
	if( *head != NULL ) {
		(*tail)->a = node;
		*tail = node;
	} else {
		*head = node;
		*tail = node;
	}
}""", """	node->a = NULL;
	struct HarbolLink **const slot = *head==NULL? head : &(*tail)->a;
	*slot = node;
	*tail = node;
}"""),
("""	node->a = *head;
	*head = node;
	if( tail != NULL && *tail==NULL ) {
		*tail = node;
	}
}""", """	struct HarbolLink *const old_head = *head;
	*head = node;
	node->a = old_head;
	if( tail==NULL || *tail != NULL ) {
		return;
	}
	*tail = node;
}"""),
("""	node2->b = node1;
	if( node1->a != NULL ) {
		node1->a->b = node2;
	}
	node2->a = node1->a;
	node1->a = node2;
}""", """	struct HarbolBiLink *const next = node1->a;
	node2->a = next;
	node2->b = node1;
	node1->a = node2;
	if( next != NULL ) {
		next->b = node2;
	}
}"""),
("""	if( *tail==NULL ) {
		*head = node;
		*tail = node;
		node->a = node->b = NULL;
	} else {
		node->b = *tail;
		node->a = NULL;
		(*tail)->a = node;
		*tail = node;
	}
}""", """	node->a = NULL;
	node->b = *tail;
	if( *tail != NULL ) {
		(*tail)->a = node;
	} else {
		*head = node;
	}
	*tail = node;
}"""),
("""	if( node->b != NULL ) {
		node->b->a = node->a;
	} else {
		*head = node->a;
		if( *head != NULL ) {
			(*head)->b = NULL;
		} else {
			*tail = NULL;
		}
	}
	
	if( node->a != NULL ) {
		node->a->b = node->b;
	} else {
		*tail = node->b;
		if( *tail != NULL ) {
			(*tail)->a = NULL;
		} else {
			*head = NULL;
		}
	}
}""", """	struct HarbolBiLink *const next = node->a, *const prev = node->b;
	if( prev==NULL ) {
		*head = next;
	} else {
		prev->a = next;
	}
	if( next==NULL ) {
		*tail = prev;
	} else {
		next->b = prev;
	}
}"""),
])
refac("common-memory", ["C19"], H, [
("""	if( arr==NULL ) {
		return calloc(new_size, element_size);
	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
		return NULL;
	}
	/// never""", """	if( arr==NULL ) {
		return calloc(new_size, element_size);
	}
	if( element_size > 0 && SIZE_MAX / element_size < new_size ) {
		return NULL;
	}
	/// never"""),
("""	uint8_t *const restrict new_block = realloc(arr, bytes + (bytes==0));
#endif
	if( new_block==NULL ) {
		return NULL;
	} else if( old_size < new_size ) {
		memset(&new_block[old_size * element_size], 0, (new_size - old_size) * element_size);
	}
	return new_block;
}""", """	uint8_t *const restrict new_block = realloc(arr, bytes==0? 1 : bytes);
#endif
	if( new_block != NULL && new_size > old_size ) {
		size_t const kept = old_size * element_size;
		memset(new_block + kept, 0, bytes - kept);
	}
	return new_block;
}"""),
("""		*buf = calloc(size, elem_size);
		res &= *buf != NULL;
	}
	va_end(ap);
	
	if( !res ) {
		for( size_t i=0; i < n_buffers; i++ ) {
			void **buf = va_arg(cp, void**);
			va_arg(cp, size_t);
			free(*buf); *buf = NULL;
		}
	}
	va_end(cp);
	return res;
}""", """		void *const mem = calloc(size, elem_size);
		if( mem==NULL ) {
			res = false;
		}
		*buf = mem;
	}
	va_end(ap);
	
	size_t left = res? 0 : n_buffers;
	while( left > 0 ) {
		void **const buf = va_arg(cp, void**);
		va_arg(cp, size_t);
		harbol_cleanup_ref(buf);
		left--;
	}
	va_end(cp);
	return res;
}"""),
("""/// This is for allocating multiple buffers""", """static inline void harbol_cleanup_ref(void **const p) {
	free(*p);
	*p = NULL;
}

/// This is for allocating multiple buffers"""),
("""	if( !res ) {
		for( size_t i=0; i < n_buffers; i++ ) {
			free(bufs[i]); bufs[i] = NULL;
		}
	} else {
		for( size_t i=0; i < n_buffers; i++ ) {
			void **buf = va_arg(cp, void**);
			size_t const elem_size = va_arg(cp, size_t);
			if( *buf != NULL ) {
				memcpy(bufs[i], *buf, (old_size < new_size? old_size : new_size) * elem_size);
				free(*buf);
			}
			*buf = bufs[i];
		}
	}
	free(bufs); bufs = NULL;
	va_end(cp);
	return res;""", """	size_t const kept = old_size < new_size? old_size : new_size;
	for( size_t i=0; i < n_buffers; i++ ) {
		if( !res ) {
			free(bufs[i]);
			continue;
		}
		void **const buf = va_arg(cp, void**);
		size_t const elem_size = va_arg(cp, size_t);
		if( *buf != NULL ) {
			memcpy(bufs[i], *buf, kept * elem_size);
		}
		free(*buf);
		*buf = bufs[i];
	}
	va_end(cp);
	free(bufs);
	return res;"""),
("""	uint8_t *restrict cpy = calloc(bytes, sizeof *cpy);
#endif
	return( cpy==NULL )? NULL : memcpy(cpy, data, bytes);""", """	uint8_t *const cpy = calloc(bytes, 1);
#endif
	if( cpy != NULL ) {
		memcpy(cpy, data, bytes);
	}
	return cpy;"""),
("""	amount += amount==0;
	size_t const
		i = index + amount,
		j = index
	;
	uint8_t *const restrict b = buf;
	if( amount < *len - index ) {
		*len -= amount;
		memmove(&b[j * datasize], &b[i * datasize], (*len - j) * datasize);
		memset(&b[*len * datasize], 0, amount * datasize);
	} else {
		/// if i goes out of range, zero everything after and lower the count.
		memset(&b[j * datasize], 0, (*len - j) * datasize);
		*len = j;
	}
	return true;
}""", """	if( amount==0 ) {
		amount = 1;
	}
	uint8_t *const dest = ( uint8_t* )(buf) + index * datasize;
	size_t const after = *len - index;
	if( amount >= after ) {
		memset(dest, 0, after * datasize);
		*len = index;
		return true;
	}
	memmove(dest, dest + amount * datasize, (after - amount) * datasize);
	memset(dest + (after - amount) * datasize, 0, amount * datasize);
	*len -= amount;
	return true;
}"""),
])
refac("common-words", ["C17"], H, [
("""	x |= x >> 1;
	x |= x >> 2;
	x |= x >> 4;
	x |= x >> 8;
	x |= x >> 16;
#if SIZE_MAX==UINT64_MAX
	x |= x >> 32;
#endif
	return x;""", """	for( size_t shift=1; shift < sizeof(x) * CHAR_BIT; shift <<= 1 ) {
		x |= x >> shift;
	}
	return x;"""),
("""	return bitwise_ceil(x) + 1;""", """	size_t const mask = bitwise_ceil(x);
	return mask + 1;"""),
("""	size_t h = seed;
	for( size_t i=0; key[i] != 0; i++ ) {
		h = ( size_t )(key[i]) + (h << 6) + (h << 16) - h;
	}
	return h;""", """	size_t h = seed;
	for( char const *p = key; *p != 0; p++ ) {
		h = h * 65599 + ( size_t )(*p);
	}
	return h;"""),
("""	size_t h = seed;
	for( size_t i=0; i < len; i++ ) {
		h = ( size_t )(key[i]) + (h << 6) + (h << 16) - h;
	}
	return h;""", """	size_t h = seed;
	uint8_t const *const end = key + len;
	while( key != end ) {
		h = ( size_t )(*key++) + (h << 6) + (h << 16) - h;
	}
	return h;"""),
("""static inline size_t array_hash(uint8_t const key[const static 1], size_t const len, size_t const seed)
#endif""", """static inline size_t array_hash(uint8_t const key[static 1], size_t const len, size_t const seed)
#endif"""),
("""	for( size_t n=0; n < (sizeof(size_t) * CHAR_BIT); n += 8 ) {
		h = ((i >> n) & 0xFF) + (h << 6) + (h << 16) - h;
	}
	return h;""", """	size_t rest = i;
	for( size_t n=0; n < sizeof(size_t); n++ ) {
		h = (rest & 0xFF) + (h << 6) + (h << 16) - h;
		rest >>= 8;
	}
	return h;"""),
("""	return (size + (align - 1)) & ~(align - 1);""", """	size_t const mask = align - 1;
	return (size + mask) & ~mask;"""),
("""	return (align - (size & (align - 1))) & (align - 1);""", """	return harbol_align_size(size, align) - size;"""),
("""	size_t const log2_of_x = int_log2(x);
	size_t const power_idx = log10_tab[log2_of_x];
	size_t const next_pow  = powers_of_10[power_idx + 1];
	return power_idx + (0 < next_pow && next_pow <= x);""", """	size_t const guess = log10_tab[int_log2(x)];
	if( x >= powers_of_10[guess + 1] ) {
		return guess + 1;
	}
	return guess;"""),
("""	return( bytes >= sizeof(size_t) )? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;""", """	if( bytes >= sizeof(size_t) ) {
		return ~( size_t )(0);
	}
	return ~(SIZE_MAX << (bytes * CHAR_BIT));"""),
])
refac("mtwister-a", ["C23"], "mtwister/mtwister.h", [
("""	rand->mt[0] = seed & SIZE_MAX;
	for( rand->index=1; rand->index < STATE_VECTOR_LENGTH; rand->index++ ) {
		rand->mt[rand->index] = (6069UL * rand->mt[rand->index - 1]) & SIZE_MAX;
	}""", """	size_t state = seed;
	for( size_t i=0; i < STATE_VECTOR_LENGTH; i++ ) {
		rand->mt[i] = state;
		state *= 6069UL;
	}
	rand->index = STATE_VECTOR_LENGTH;"""),
("""static inline size_t MT_GenRand_UInt(struct MTRand *const rand) {
	size_t y = 0;
	size_t const mag[] = {0x0UL, 0x9908b0dfUL}; /** mag[x] = x * 0x9908b0df for x = 0,1 */
	if( rand->index >= STATE_VECTOR_LENGTH ) {
""", """static inline size_t _MT_Mix(size_t const a, size_t const b, size_t const c) {
	size_t const y = (a & UPPER_MASK) | (b & LOWER_MASK);
	return c ^ (y >> 1) ^ ((y & 1)? 0x9908b0dfUL : 0);
}
static inline size_t MT_GenRand_UInt(struct MTRand *const rand) {
	size_t y = 0;
	if( rand->index >= STATE_VECTOR_LENGTH ) {
"""),
("""		int kk = 0;
		for( ; kk < (STATE_VECTOR_LENGTH - STATE_VECTOR_M); kk++ ) {
			y = (rand->mt[kk] & UPPER_MASK) | (rand->mt[kk + 1] & LOWER_MASK);
			rand->mt[kk] = rand->mt[kk + STATE_VECTOR_M] ^ (y >> 1) ^ mag[y & 0x1UL];
		}
		for( ; kk < STATE_VECTOR_LENGTH-1; kk++ ) {
			y = (rand->mt[kk] & UPPER_MASK) | (rand->mt[kk+1] & LOWER_MASK);
			rand->mt[kk] = rand->mt[kk + (STATE_VECTOR_M - STATE_VECTOR_LENGTH)] ^ (y >> 1) ^ mag[y & 0x1UL];
		}
		
		y = (rand->mt[STATE_VECTOR_LENGTH - 1] & UPPER_MASK) | (rand->mt[0] & LOWER_MASK);
		rand->mt[STATE_VECTOR_LENGTH - 1] = rand->mt[STATE_VECTOR_M - 1] ^ (y >> 1UL) ^ mag[y & 0x1UL];
		rand->index = 0;""", """		for( size_t k=0; k < STATE_VECTOR_LENGTH; k++ ) {
			size_t const next = k + 1 < STATE_VECTOR_LENGTH? k + 1 : 0;
			size_t const far  = k < STATE_VECTOR_LENGTH - STATE_VECTOR_M? k + STATE_VECTOR_M : k - (STATE_VECTOR_LENGTH - STATE_VECTOR_M);
			rand->mt[k] = _MT_Mix(rand->mt[k], rand->mt[next], rand->mt[far]);
		}
		rand->index = 0;"""),
])
refac("mtwister-b", ["C23"], "mtwister/mtwister.h", [
("""	y = rand->mt[rand->index++];
	y ^= (y >> 11UL);
	y ^= (y << 7UL) & TEMPERING_MASK_B;
	y ^= (y << 15UL) & TEMPERING_MASK_C;
	y ^= (y >> 18UL);
	return y;""", """	size_t const pos = rand->index;
	rand->index = pos + 1;
	y  = rand->mt[pos];
	y ^= y >> 11;
	y ^= TEMPERING_MASK_B & (y << 7);
	y ^= TEMPERING_MASK_C & (y << 15);
	return y ^ (y >> 18);"""),
("""		int kk = 0;
		for( ; kk < (STATE""", """		size_t kk = 0;
		for( ; kk < (STATE"""),
("""kk + (STATE_VECTOR_M - STATE_VECTOR_LENGTH)]""", """kk - (STATE_VECTOR_LENGTH - STATE_VECTOR_M)]"""),
("""	return ( double )(MT_GenRand_UInt(rand)) / SIZE_MAX;""", """	double const draw = MT_GenRand_UInt(rand);
	return draw / SIZE_MAX;"""),
])
