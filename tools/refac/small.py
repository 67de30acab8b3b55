refac("bytebuffer-a", ["C03", "C20"], "bytebuffer/bytebuffer.c", [
("""#ifndef HARBOL_BYTEBUFFER_INSERTION
#	define HARBOL_BYTEBUFFER_INSERTION \\
	if( buf->len + sizeof val >= buf->cap && !_harbol_buffer_resize(buf, buf->len + sizeof val) ) \\
		return false; \\
	\\
	memcpy(&buf->table[buf->len], &val, sizeof val); \\
	buf->len += sizeof val; \\
	return true;
#endif""", """static bool _harbol_buffer_room(struct HarbolByteBuf *const buf, size_t const extra) {
	size_t const needed = buf->len + extra;
	if( needed < buf->cap ) {
		return true;
	}
	return _harbol_buffer_resize(buf, needed);
}
static bool _harbol_buffer_put(struct HarbolByteBuf *const buf, void const *const data, size_t const size) {
	if( !_harbol_buffer_room(buf, size) ) {
		return false;
	}
	memcpy(buf->table + buf->len, data, size);
	buf->len += size;
	return true;
}
#ifndef HARBOL_BYTEBUFFER_INSERTION
#	define HARBOL_BYTEBUFFER_INSERTION \\
	return _harbol_buffer_put(buf, &val, sizeof val);
#endif"""),
("""	size_t const cstr_len = strlen(cstr);
	if( buf->len + cstr_len + 1 >= buf->cap && !_harbol_buffer_resize(buf, buf->len + cstr_len + 1) ) {
		return false;
	}
	strcpy(( char* )(&buf->table[buf->len]), cstr);
	buf->len += cstr_len;
	buf->table[buf->len++] = 0;
	return true;""", """	return _harbol_buffer_put(buf, cstr, strlen(cstr) + 1);"""),
("""	if( buf->len + size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size) ) {
		return false;
	}
	memcpy(&buf->table[buf->len], obj, size);
	buf->len += size;
	return true;""", """	return _harbol_buffer_put(buf, obj, size);"""),
("""	memset(&buf->table[buf->len], 0, amount);
	buf->len += amount;
	return true;""", """	for( size_t i=0; i < amount; ++i ) {
		buf->table[buf->len++] = 0;
	}
	return true;"""),
])
refac("bytebuffer-b", ["C03", "C20"], "bytebuffer/bytebuffer.c", [
("""	if( buf->len + size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + size) ) {
		return false;
	}
	memcpy(&buf->table[buf->len], obj, size);
	buf->len += size;
	return true;""", """	size_t const end = buf->len + size;
	if( end >= buf->cap ) {
		if( !_harbol_buffer_resize(buf, end) ) {
			return false;
		}
	}
	uint8_t const *const bytes = obj;
	for( size_t i=0; i < size; i++ ) {
		buf->table[buf->len + i] = bytes[i];
	}
	buf->len = end;
	return true;"""),
("""	memcpy(&bufA->table[bufA->len], bufB->table, bufB->len);
	bufA->len += bufB->len;
	return true;""", """	size_t const n = bufB->len;
	memmove(bufA->table + bufA->len, bufB->table, n);
	bufA->len += n;
	return true;"""),
("""	strcpy(( char* )(&buf->table[buf->len]), cstr);
	buf->len += cstr_len;
	buf->table[buf->len++] = 0;
	return true;""", """	memcpy(&buf->table[buf->len], cstr, cstr_len);
	buf->table[buf->len + cstr_len] = 0;
	buf->len += cstr_len + 1;
	return true;"""),
])
refac("objpool-a", ["C11"], "allocators/objpool/objpool.c", [
("""HARBOL_EXPORT NO_NULL bool harbol_objpool_init(""", """static void objpool_link(struct HarbolObjPool *const objpool) {
	for( size_t i=0; i < objpool->size; ++i ) {
		*( size_t* )(objpool->mem + i * objpool->objsize) = i + 1;
	}
	objpool->next = objpool->mem;
}
HARBOL_EXPORT NO_NULL bool harbol_objpool_init("""),
("""	objpool->size = objpool->free_blocks = len;
	objpool->objsize = aligned_objsize;
	for( size_t i=0; i < objpool->free_blocks; i++ ) {
		size_t *const restrict index = ( size_t* )(objpool->mem + (i * objpool->objsize));
		*index = i + 1;
	}
	objpool->next = objpool->mem;
	return true;""", """	objpool->objsize = aligned_objsize;
	objpool->free_blocks = len;
	objpool->size = len;
	objpool_link(objpool);
	return true;"""),
("""	for( size_t i=0; i<objpool->free_blocks; i++ ) {
		size_t *const restrict index = ( size_t* )(objpool->mem + (i * objpool->objsize));
		*index = i + 1;
	}
	objpool->next = objpool->mem;
	return true;""", """	uintptr_t block = objpool->mem;
	for( size_t i=0; i<objpool->free_blocks; block += objpool->objsize ) {
		size_t *const index = ( size_t* )(block);
		*index = ++i;
	}
	objpool->next = objpool->mem;
	return true;"""),
("""	objpool->next = ( objpool->free_blocks != 0 )? objpool->mem + (*index * objpool->objsize) : NIL;
	return memset(index, 0, objpool->objsize);""", """	if( objpool->free_blocks==0 ) {
		objpool->next = NIL;
	} else {
		size_t const n = *index;
		objpool->next = objpool->mem + n * objpool->objsize;
	}
	memset(index, 0, objpool->objsize);
	return index;"""),
("""	{
		size_t *const restrict index = ptr;
		*index = ( objpool->next != NIL )? (objpool->next - objpool->mem) / objpool->objsize : objpool->size;
	}
	objpool->next = p;
	++objpool->free_blocks;""", """	size_t link = objpool->size;
	if( objpool->next != NIL ) {
		link = (objpool->next - objpool->mem) / objpool->objsize;
	}
	*( size_t* )(ptr) = link;
	objpool->free_blocks++;
	objpool->next = p;"""),
])
refac("tree-a", ["C13", "C20"], "tree/tree.c", [
("""	for( size_t i=0; i<tree->kids.len; i++ ) {
		harbol_tree_free(&conv.t[i]);
	}
	harbol_array_clear(&tree->kids);""", """	for( size_t i=tree->kids.len; i > 0; --i ) {
		harbol_tree_free(&conv.t[i - 1]);
	}
	harbol_array_clear(&tree->kids);"""),
("""	tree->data = dup_data(val, datasize);
	if( tree->data==NULL ) {
		return false;
	} else if( !harbol_array_init(&tree->kids, sizeof tree, 4) ) {
		free(tree->data); tree->data = NULL;
		return false;
	}
	tree->len = datasize;
	return true;""", """	uint8_t *const copy = dup_data(val, datasize);
	tree->data = copy;
	if( copy==NULL ) {
		return false;
	}
	if( harbol_array_init(&tree->kids, sizeof(struct HarbolTree*), 4) ) {
		tree->len = datasize;
		return true;
	}
	tree->data = NULL;
	free(copy);
	return false;"""),
])
refac("bistack-a", ["C10"], "allocators/bistack/bistack.c", [
("""HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk, size_t const size) {
	if( bistk->mem==NULL ) {
		return NULL;
	}
	
	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
	/// front end arena is too high!
	if( size > bistk->back - bistk->front || aligned_size >= bistk->back - bistk->front ) {
		return NULL;
	}
	size_t const f = bistk->front;
	bistk->front += aligned_size;
	return bistk->mem + f;""", """static bool bistack_fits(struct HarbolBiStack const *const bistk, size_t const size, size_t *const aligned) {
	size_t const margin = bistk->back - bistk->front;
	*aligned = harbol_align_size(size, sizeof(size_t));
	return size <= margin && *aligned < margin;
}
HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk, size_t const size) {
	size_t need = 0;
	if( bistk->mem==NULL || !bistack_fits(bistk, size, &need) ) {
		return NULL;
	}
	void *const block = &bistk->mem[bistk->front];
	bistk->front = bistk->front + need;
	return block;"""),
])
refac("region-a", ["C09"], "allocators/region/region.c", [
("""	if( region->offs - alloc_size >= region->size ) {
		return NULL;
	}
	region->offs -= alloc_size;
	return memset(region->mem + region->offs, 0, alloc_size);""", """	if( alloc_size > region->offs ) {
		return NULL;
	}
	region->offs = region->offs - alloc_size;
	uint8_t *const block = region->mem + region->offs;
	memset(block, 0, alloc_size);
	return block;"""),
])
refac("tuple-a", ["C12"], "tuple/tuple.c", [
("""	for( size_t i=0; i < len; i++ ) {
		if( largest_memb < sizes[i] ) {
			largest_memb = sizes[i];
		}
	}""", """	for( size_t i=0; i < len; ++i ) {
		largest_memb = sizes[i] > largest_memb? sizes[i] : largest_memb;
	}"""),
("""	void *const restrict field = harbol_tuple_get(tuple, index);
	if( field==NULL ) {
		return NULL;
	}
	
	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
	return memcpy(field, val, *field_data >> 16);""", """	void *const field = harbol_tuple_get(tuple, index);
	return field==NULL? NULL : memcpy(field, val, harbol_tuple_field_size(tuple, index));"""),
])
refac("variant-a", ["C14", "C20"], "variant/variant.c", [])
