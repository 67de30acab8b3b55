refac("tuple-b", ["C12"], "tuple/tuple.c", [
("""HARBOL_EXPORT void *harbol_tuple_get(struct HarbolTuple const *const tuple, size_t const index) {
	if( tuple->datum==NULL || tuple->len==0 ) {
		return NULL;
	}
	
	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
	return( field_data==NULL || (*field_data & 0xFFFF) >= tuple->len )? NULL : tuple->datum + (*field_data & 0xFFFF);
}""", """static bool tuple_field(struct HarbolTuple const *const tuple, size_t const index, uint32_t *const offset, uint32_t *const size) {
	if( tuple->len==0 || tuple->datum==NULL ) {
		return false;
	}
	uint32_t const *const packed = harbol_array_get(&tuple->fields, index, sizeof *packed);
	if( packed==NULL ) {
		return false;
	}
	*offset = *packed & UINT16_MAX;
	*size = *packed >> 16;
	return true;
}
HARBOL_EXPORT void *harbol_tuple_get(struct HarbolTuple const *const tuple, size_t const index) {
	uint32_t offset = 0, size = 0;
	if( tuple_field(tuple, index, &offset, &size) && offset < tuple->len ) {
		return &tuple->datum[offset];
	}
	return NULL;
}"""),
("""	void *const restrict field = harbol_tuple_get(tuple, index);
	if( field==NULL ) {
		return NULL;
	}
	
	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
	return memcpy(field, val, *field_data >> 16);""", """	uint32_t offset = 0, size = 0;
	if( !tuple_field(tuple, index, &offset, &size) || offset >= tuple->len ) {
		return NULL;
	}
	memcpy(tuple->datum + offset, val, size);
	return tuple->datum + offset;"""),
("""	uint32_t const *const field_data = harbol_array_get(&tuple->fields, index, sizeof *field_data);
	return( field_data==NULL )? 0 : *field_data >> 16;""", """	uint32_t offset = 0, size = 0;
	tuple_field(tuple, index, &offset, &size);
	return size;"""),
("""	harbol_array_clear(&tuple->fields);
	free(tuple->datum); tuple->datum = NULL;
	tuple->len = 0;
}""", """	tuple->len = 0;
	free(tuple->datum);
	tuple->datum = NULL;
	harbol_array_clear(&tuple->fields);
}"""),
("""		if( packed || len==1 ) {
			continue;
		}
		size_t const offalign = (i+1 < len)? sizes[i+1] : prev_size;
		total_size = harbol_align_size(total_size, offalign >= ptr_size? ptr_size : offalign);
		prev_size = sizes[i];""", """		if( !packed && len != 1 ) {
			size_t align = (i+1 < len)? sizes[i+1] : prev_size;
			if( align > ptr_size ) {
				align = ptr_size;
			}
			total_size = harbol_align_size(total_size, align);
			prev_size = sizes[i];
		}"""),
])
refac("region-b", ["C09"], "allocators/region/region.c", [
("""	region.mem = calloc(size, sizeof *region.mem);
	if( region.mem==NULL ) {
		return region;
	}
	
	region.size = region.offs = size;
	return region;
}""", """	uint8_t *const mem = calloc(1, size);
	return mem==NULL? region : harbol_region_make_from_buffer(mem, size);
}"""),
("""	if( region->mem==NULL || size==0 || size > region->size ) {
		return NULL;
	}
	
	size_t const alloc_size = harbol_align_size(size, sizeof(uintptr_t));
	if( region->offs - alloc_size >= region->size ) {
		return NULL;
	}
	region->offs -= alloc_size;
	return memset(region->mem + region->offs, 0, alloc_size);""", """	if( region->mem != NULL && size != 0 && size <= region->size ) {
		size_t const alloc_size = (size + sizeof(uintptr_t) - 1) & ~(sizeof(uintptr_t) - 1);
		if( alloc_size <= region->offs ) {
			region->offs -= alloc_size;
			void *const block = &region->mem[region->offs];
			return memset(block, 0, alloc_size);
		}
	}
	return NULL;"""),
("""	if( region->mem==NULL ) {
		return;
	}
	free(region->mem);
	*region = ( struct HarbolRegion ){0};""", """	free(region->mem);
	region->mem = NULL;
	region->size = 0;
	region->offs = 0;"""),
("""	return region->offs > region->size? 0 : region->offs;""", """	if( region->offs <= region->size ) {
		return region->offs;
	}
	return 0;"""),
])
refac("bistack-b", ["C10"], "allocators/bistack/bistack.c", [
("""	bistk->mem = calloc(len, sizeof *bistk->mem);
	if( bistk->mem==NULL ) {
		return false;
	}
	bistk->size = bistk->back = len;
	return true;""", """	uint8_t *const mem = calloc(1, len);
	bistk->mem = mem;
	if( mem != NULL ) {
		bistk->back = len;
		bistk->size = len;
	}
	return mem != NULL;"""),
("""	/// back end arena is too low
	if( size > bistk->back - bistk->front || aligned_size >= bistk->back - bistk->front ) {
		return NULL;
	}
	bistk->back -= aligned_size;
	return bistk->mem + bistk->back;""", """	size_t const margin = harbol_bistack_get_margins(*bistk);
	if( size <= margin && aligned_size < margin ) {
		bistk->back -= aligned_size;
		return &bistk->mem[bistk->back];
	}
	return NULL;"""),
("""	if( bistk->mem==NULL ) {
		return;
	}
	bistk->front = 0;
	bistk->back  = bistk->size;""", """	harbol_bistack_reset_back(bistk);
	harbol_bistack_reset_front(bistk);"""),
("""	bistk->mem   = new_buf;
	bistk->size  = bistk->back = new_size;
	bistk->front = 0;
	return true;""", """	bistk->mem  = new_buf;
	bistk->size = new_size;
	harbol_bistack_reset_all(bistk);
	return true;"""),
])
refac("objpool-b", ["C11"], "allocators/objpool/objpool.c", [
("""	size_t const aligned_objsize = harbol_align_size(objsize, sizeof(size_t));
	if( aligned_objsize < objsize ) {
		return false;
	}
	objpool->mem = ( uintptr_t )(calloc(len, aligned_objsize));
	if( objpool->mem==NIL ) {
		return false;
	}
	
	objpool->size = objpool->free_blocks = len;
	objpool->objsize = aligned_objsize;
	for( size_t i=0; i < objpool->free_blocks; i++ ) {
		size_t *const restrict index = ( size_t* )(objpool->mem + (i * objpool->objsize));
		*index = i + 1;
	}
	objpool->next = objpool->mem;
	return true;""", """	size_t const block_size = harbol_align_size(objsize, sizeof(size_t));
	if( block_size < objsize ) {
		return false;
	}
	void *const mem = calloc(len, block_size);
	objpool->mem = ( uintptr_t )(mem);
	if( mem==NULL ) {
		return false;
	}
	for( size_t i=len; i-- > 0; ) {
		*( size_t* )(( uint8_t* )(mem) + i * block_size) = i + 1;
	}
	objpool->next = objpool->mem;
	objpool->objsize = block_size;
	objpool->size = objpool->free_blocks = len;
	return true;"""),
("""	uintptr_t const p = ( uintptr_t )(ptr);
	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) ) {
		return;
	}""", """	if( ptr==NULL ) {
		return;
	}
	uintptr_t const p = ( uintptr_t )(ptr);
	uintptr_t const end = objpool->mem + (objpool->size * objpool->objsize);
	if( !(p >= objpool->mem && p < end) ) {
		return;
	}"""),
])
refac("str-d", ["C04", "C05", "C20"], "str/str.c", [
("""	va_list args; va_start(args, fmt);
	return harbol_string_scan_va(str, fmt, args);""", """	va_list args;
	va_start(args, fmt);
	int const matched = vsscanf(str->cstr, fmt, args);
	va_end(args);
	return matched;"""),
("""	bool const read_result = harbol_string_read_from_file(str, file);
	fclose(file);
	return read_result;""", """	bool ok = false;
	if( harbol_string_read_from_file(str, file) ) {
		ok = true;
	}
	fclose(file);
	return ok;"""),
("""	if( str->cstr==NULL || to_replace==0 || with==0 ) {
		return false;
	}
	bool got_something = false;
	for( size_t i=0; i < (str->len + 1); i++ ) {
		if( str->cstr[i]==to_replace ) {
			str->cstr[i] = with;
			got_something |= true;
		}
	}
	return got_something;""", """	if( str->cstr==NULL || to_replace=='\\0' || with=='\\0' ) {
		return false;
	}
	size_t replaced = 0;
	char *iter = str->cstr;
	char *const end = str->cstr + str->len;
	while( iter < end ) {
		if( *iter==to_replace ) {
			*iter = with;
			replaced++;
		}
		iter++;
	}
	return replaced > 0;"""),
("""	size_t const cstr_len = strlen(cstr);
	return strncmp(cstr, str->cstr, (str->len > cstr_len)? str->len : cstr_len);""", """	size_t most = strlen(cstr);
	if( most < str->len ) {
		most = str->len;
	}
	return strncmp(cstr, str->cstr, most);"""),
])
refac("bytebuffer-c", ["C03", "C20"], "bytebuffer/bytebuffer.c", [
("""	bool const res = harbol_bytebuffer_insert_from_file(buf, file);
	fclose(file);
	return res;""", """	if( !harbol_bytebuffer_insert_from_file(buf, file) ) {
		fclose(file);
		return false;
	}
	fclose(file);
	return true;"""),
("""HARBOL_EXPORT bool harbol_bytebuffer_insert_floatmax(struct HarbolByteBuf *const buf, floatmax_t const val) {
	HARBOL_BYTEBUFFER_INSERTION
}""", """HARBOL_EXPORT bool harbol_bytebuffer_insert_floatmax(struct HarbolByteBuf *const buf, floatmax_t const val) {
	return harbol_bytebuffer_insert_obj(buf, &val, sizeof val);
}"""),
("""	rewind(file);
	if( buf->len + file_size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + file_size) ) {
		return false;
	}
	size_t const bytes_read = fread(&buf->table[buf->len], sizeof *buf->table, file_size, file);
	buf->len += bytes_read;
	return bytes_read==( size_t )(file_size);""", """	size_t const wanted = file_size;
	size_t const new_len = buf->len + wanted;
	if( new_len >= buf->cap && !_harbol_buffer_resize(buf, new_len) ) {
		return false;
	}
	rewind(file);
	size_t const got = fread(buf->table + buf->len, 1, wanted, file);
	buf->len += got;
	return got==wanted;"""),
("""	memcpy(&bufA->table[bufA->len], bufB->table, bufB->len);
	bufA->len += bufB->len;
	return true;
}

HARBOL_EXPORT bool harbol_bytebuffer_copy""", """	size_t const added = bufB->len;
	memcpy(bufA->table + bufA->len, bufB->table, added);
	bufA->len = bufA->len + added;
	return true;
}

HARBOL_EXPORT bool harbol_bytebuffer_copy"""),
])
refac("lex-c", ["C15", "C16"], "lex/lex.c", [
("""	size_t const byte_len = rune_byte_len(rune);
	switch( byte_len ) {
		case 1:
			harbol_string_add_char(str, rune);
			return true;
		case 2:
			harbol_string_add_char(str, 0xC0 | (rune >> 6));
			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
			return true;
		case 3:
			harbol_string_add_char(str, 0xE0 | (rune >> 12));
			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
			return true;
		case 4:
			harbol_string_add_char(str, 0xF0 | (rune >> 18));
			harbol_string_add_char(str, 0x80 | ((rune >> 12) & 0x3F));
			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
			return true;
		default:
			return false;
	}
}""", """	char bytes[4] = {0};
	size_t const len = write_utf8_cstr(bytes, sizeof bytes, rune);
	for( size_t i=0; i < len; i++ ) {
		harbol_string_add_char(str, bytes[i]);
	}
	return len != 0;
}"""),
("""	while( cstr[iter_len] != 0 && rune_iter < rune_count ) {
		int32_t rune = 0;
		size_t const bytes_read = read_utf8(&cstr[iter_len], cstr_len - iter_len, &rune);
		if( rune==0 ) {
			break;
		}
		iter_len += bytes_read;
		runes[rune_iter] = rune;
		rune_iter++;
	}""", """	for( ; rune_iter < rune_count; rune_iter++ ) {
		if( cstr[iter_len]==0 ) {
			break;
		}
		int32_t rune = 0;
		iter_len += read_utf8(cstr + iter_len, cstr_len - iter_len, &rune);
		if( rune==0 ) {
			break;
		}
		runes[rune_iter] = rune;
	}"""),
("""	for( size_t i=0; cstr[i] != 0; ) {
		size_t const read = get_utf8_len(cstr[i]);
		for( size_t n=0; n < read && cstr[i] != 0; n++ ) {
			i++; /// a truncated sequence ends with the text.
		}
		runes++;
	}""", """	char const *iter = cstr;
	while( *iter != 0 ) {
		size_t left = get_utf8_len(*iter);
		while( left > 0 && *iter != 0 ) {
			iter++;
			left--;
		}
		runes++;
	}"""),
])
refac("lex-d", ["C15"], "lex/lex.c", [
("""	size_t const byte_len = rune_byte_len(rune);
	switch( byte_len ) {
		case 1:
			harbol_string_add_char(str, rune);
			return true;
		case 2:
			harbol_string_add_char(str, 0xC0 | (rune >> 6));
			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
			return true;
		case 3:
			harbol_string_add_char(str, 0xE0 | (rune >> 12));
			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
			return true;
		case 4:
			harbol_string_add_char(str, 0xF0 | (rune >> 18));
			harbol_string_add_char(str, 0x80 | ((rune >> 12) & 0x3F));
			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
			return true;
		default:
			return false;
	}
}""", """	char bytes[5] = {0};
	size_t const len = write_utf8_cstr(bytes, 4, rune);
	if( len==1 ) {
		return harbol_string_add_char(str, bytes[0]), true;
	} else if( len > 1 ) {
		harbol_string_add_cstr(str, bytes);
	}
	return len > 0;
}"""),
])
