refac("variant-b", ["C14", "C20"], "variant/variant.c", [
("""	struct HarbolVariant *restrict variant = calloc(1, sizeof *variant);
	if( variant==NULL || !harbol_variant_init(variant, val, datasize, type_flags) ) {
		free(variant); variant = NULL;
	}
	return variant;""", """	bool ok = false;
	struct HarbolVariant const v = harbol_variant_make(val, datasize, type_flags, &ok);
	if( !ok ) {
		return NULL;
	}
	struct HarbolVariant *const variant = malloc(sizeof *variant);
	if( variant==NULL ) {
		free(v.data);
		return NULL;
	}
	*variant = v;
	return variant;"""),
("""	variant->data = dup_data(val, datasize);
	if( variant->data==NULL ) {
		return false;
	}
	variant->size = datasize;
	variant->tag = type_flags;
	return true;""", """	void *const copy = dup_data(val, datasize);
	variant->data = copy;
	if( copy != NULL ) {
		variant->tag = type_flags;
		variant->size = datasize;
	}
	return copy != NULL;"""),
("""	free(variant->data); variant->data=NULL;
	variant->size = 0;
	variant->tag = 0;
}""", """	free(variant->data);
	*variant = ( struct HarbolVariant ){0};
}"""),
("""	if( variant->data != NULL ) {
		free(variant->data); variant->data = NULL;
	}
	variant->data = cpy;""", """	free(variant->data);
	variant->data = cpy;"""),
])
refac("tree-b", ["C13", "C20"], "tree/tree.c", [
("""	struct HarbolTree *restrict tree = calloc(1, sizeof *tree);
	if( tree==NULL || !harbol_tree_init(tree, val, datasize) ) {
		free(tree); tree = NULL;
	}
	return tree;""", """	struct HarbolTree *const tree = calloc(1, sizeof *tree);
	if( tree==NULL ) {
		return NULL;
	}
	if( harbol_tree_init(tree, val, datasize) ) {
		return tree;
	}
	free(tree);
	return NULL;"""),
("""	free(tree->data); tree->data = NULL;
	tree->len = 0;
	union {
		uint8_t            *b;
		struct HarbolTree **t;
	} conv = {tree->kids.table};
	
	for( size_t i=0; i<tree->kids.len; i++ ) {
		harbol_tree_free(&conv.t[i]);
	}
	harbol_array_clear(&tree->kids);
}""", """	struct HarbolTree **const kids = ( struct HarbolTree** )(tree->kids.table);
	size_t const count = tree->kids.len;
	for( size_t i=0; i != count; i++ ) {
		harbol_tree_free(kids + i);
	}
	harbol_array_clear(&tree->kids);
	free(tree->data);
	tree->data = NULL;
	tree->len = 0;
}"""),
("""HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, void const *const val, size_t const datasize) {
	if( datasize==0 ) {
		return false;
	}
	for( size_t i=0; i < tree->kids.len; i++ ) {
		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
			harbol_tree_free(child_ref);
			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
		}
	}
	return false;
}""", """static size_t _tree_find(struct HarbolTree const *const tree, void const *const val, size_t const datasize) {
	struct HarbolTree **const kids = ( struct HarbolTree** )(tree->kids.table);
	for( size_t i=0; i < tree->kids.len; i++ ) {
		if( kids[i]->len==datasize && memcmp(kids[i]->data, val, datasize)==0 ) {
			return i;
		}
	}
	return SIZE_MAX;
}
HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, void const *const val, size_t const datasize) {
	size_t const i = datasize==0? SIZE_MAX : _tree_find(tree, val, datasize);
	return i != SIZE_MAX && harbol_tree_rm_index(tree, i);
}"""),
("""	for( size_t i=0; i < tree->kids.len; i++ ) {
		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
			return *child_ref;
		}
	}
	return NULL;""", """	size_t const i = _tree_find(tree, val, datasize);
	return i==SIZE_MAX? NULL : harbol_tree_get_node_by_index(tree, i);"""),
("""	return( (*child_ref)->data==NULL || (harbol_array_full(&tree->kids) && !harbol_array_grow(&tree->kids, sizeof tree)) )? false : harbol_array_insert(&tree->kids, child_ref, sizeof *child_ref);""",
"""	if( (*child_ref)->data==NULL ) {
		return false;
	}
	if( harbol_array_full(&tree->kids) ) {
		if( !harbol_array_grow(&tree->kids, sizeof *child_ref) ) {
			return false;
		}
	}
	return harbol_array_insert(&tree->kids, child_ref, sizeof *child_ref);"""),
])
refac("span-a", ["C22"], "msg_span/msg_span.c", [
("""HARBOL_EXPORT struct HarbolTokenSpan harbol_token_span_merge(""", """static inline uint32_t _min(uint32_t const a, uint32_t const b) {
	return a < b? a : b;
}
static inline uint32_t _max(uint32_t const a, uint32_t const b) {
	return a < b? b : a;
}
HARBOL_EXPORT struct HarbolTokenSpan harbol_token_span_merge("""),
("""	return ( struct HarbolTokenSpan ) {
		.line_start = span1.line_start > span2.line_start? span2.line_start : span1.line_start,
		.colm_start = span1.colm_start > span2.colm_start? span2.colm_start : span1.colm_start,
		.line_end   = span1.line_end   > span2.line_end?   span1.line_end   : span2.line_end,
		.colm_end   = span1.colm_end   > span2.colm_end?   span1.colm_end   : span2.colm_end,
	};""", """	struct HarbolTokenSpan merged = span1;
	merged.line_start = _min(merged.line_start, span2.line_start);
	merged.colm_start = _min(merged.colm_start, span2.colm_start);
	merged.line_end   = _max(merged.line_end, span2.line_end);
	if( span2.colm_end > merged.colm_end ) {
		merged.colm_end = span2.colm_end;
	}
	return merged;"""),
])
