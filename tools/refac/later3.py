refac("math-d", ["C21"], "math/math_parser.c", [
("""	floatmax_t val = harbol_math_parse_mul_expr(ls, expression);
	if( ls->tok.tag==TokenPlus || ls->tok.tag==TokenSub ) {
		while( ls->tok.tag==TokenPlus || ls->tok.tag==TokenSub ) {
			enum HarbolMathTokenType const t = ls->tok.tag;
			_harbol_math_get_token(ls, expression);
			if( t==TokenPlus ) {
				val += harbol_math_parse_mul_expr(ls, expression);
			} else if( t==TokenSub ) {
				val -= harbol_math_parse_mul_expr(ls, expression);
			}
		}
	}
	return val;""", """	floatmax_t val = harbol_math_parse_mul_expr(ls, expression);
	for( ;; ) {
		bool const plus = ls->tok.tag==TokenPlus;
		if( !plus && ls->tok.tag != TokenSub ) {
			return val;
		}
		_harbol_math_get_token(ls, expression);
		floatmax_t const rhs = harbol_math_parse_mul_expr(ls, expression);
		val = plus? val + rhs : val - rhs;
	}"""),
("""	if( ls->tok.tag==TokenPow ) {
		while( ls->tok.tag==TokenPow ) {
			_harbol_math_get_token(ls, expression);
			val = pow(val, harbol_math_parse_unary_expr(ls, expression));
		}
	}
	return val;""", """	while( ls->tok.tag==TokenPow ) {
		_harbol_math_get_token(ls, expression);
		floatmax_t const exponent = harbol_math_parse_unary_expr(ls, expression);
		val = pow(val, exponent);
	}
	return val;"""),
("""	floatmax_t val;
	ls->depth++;
	if( ls->tok.tag==TokenSub ) {
		_harbol_math_get_token(ls, expression);
		val = -harbol_math_parse_unary_expr(ls, expression);
	} else if( ls->tok.tag==TokenPlus ) {
		_harbol_math_get_token(ls, expression);
		val = fabs( harbol_math_parse_unary_expr(ls, expression) );
	} else {
		val = harbol_math_parse_factor(ls, expression);
	}
	ls->depth--;
	return val;""", """	floatmax_t val = 0;
	++ls->depth;
	switch( ls->tok.tag ) {
		case TokenSub:
			_harbol_math_get_token(ls, expression);
			val = -harbol_math_parse_unary_expr(ls, expression);
			break;
		case TokenPlus:
			_harbol_math_get_token(ls, expression);
			val = harbol_math_parse_unary_expr(ls, expression);
			val = fabs(val);
			break;
		default:
			val = harbol_math_parse_factor(ls, expression);
	}
	--ls->depth;
	return val;"""),
])
refac("tree-c", ["C13", "C20"], "tree/tree.c", [
("""HARBOL_EXPORT bool harbol_tree_rm_val(""", """static size_t _tree_child_with(struct HarbolTree const *const tree, void const *const val, size_t const datasize) {
	struct HarbolTree **const kids = ( struct HarbolTree** )(tree->kids.table);
	for( size_t i=0; i < tree->kids.len; i++ ) {
		struct HarbolTree const *const kid = kids[i];
		if( kid->len==datasize && memcmp(kid->data, val, datasize)==0 ) {
			return i;
		}
	}
	return SIZE_MAX;
}
HARBOL_EXPORT bool harbol_tree_rm_val("""),
("""	if( datasize==0 ) {
		return false;
	}
	for( size_t i=0; i < tree->kids.len; i++ ) {
		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
			harbol_tree_free(child_ref);
			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
		}
	}
	return false;""", """	if( datasize==0 ) {
		return false;
	}
	size_t const i = _tree_child_with(tree, val, datasize);
	return i==SIZE_MAX? false : harbol_tree_rm_index(tree, i);"""),
("""	for( size_t i=0; i < tree->kids.len; i++ ) {
		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
			return *child_ref;
		}
	}
	return NULL;""", """	size_t const i = _tree_child_with(tree, val, datasize);
	return harbol_tree_get_node_by_index(tree, i);"""),
("""	struct HarbolTree *node = harbol_tree_new(val, datasize);
	return( node==NULL || node->data==NULL )? false : harbol_array_insert(&tree->kids, &node, sizeof node);""", """	struct HarbolTree *node = harbol_tree_new(val, datasize);
	if( node==NULL ) {
		return false;
	}
	return harbol_tree_insert_node(tree, &node);"""),
])
refac("common-memory-b", ["C19"], "harbol_common_includes.h", [
("""	amount += amount==0;
	size_t const
		i = index + amount,
		j = index
	;
	uint8_t *const restrict b = buf;
	if( amount < *len - index ) {
		*len -= amount;
		memmove(&b[j * datasize], &b[i * datasize], (*len - j) * datasize);
		memset(&b[*len * datasize], 0, amount * datasize);
	} else {
		/// if i goes out of range, zero everything after and lower the count.
		memset(&b[j * datasize], 0, (*len - j) * datasize);
		*len = j;
	}
	return true;""", """	if( amount==0 ) {
		amount = 1;
	}
	size_t const rest = *len - index;
	uint8_t *const at = ( uint8_t* )(buf) + index * datasize;
	if( amount >= rest ) {
		memset(at, 0, rest * datasize);
		*len = index;
		return true;
	}
	size_t const kept = rest - amount;
	memmove(at, at + amount * datasize, kept * datasize);
	memset(at + kept * datasize, 0, amount * datasize);
	*len = index + kept;
	return true;"""),
("""	return( cpy==NULL )? NULL : memcpy(cpy, data, bytes);""", """	if( cpy != NULL ) {
		memcpy(cpy, data, bytes);
	}
	return cpy;"""),
("""	return( cpy==NULL )? NULL : strcpy(cpy, cstr);""", """	if( cpy==NULL ) {
		return NULL;
	}
	memcpy(cpy, cstr, strlen(cstr) + 1);
	return cpy;"""),
])
refac("span-b", ["C22"], "msg_span/msg_span.c", [
("""	return( msgspan->src.lines==NULL || line >= msgspan->src.len )? NULL : msgspan->src.lines + line;""", """	if( msgspan->src.lines != NULL && line < msgspan->src.len ) {
		return &msgspan->src.lines[line];
	}
	return NULL;"""),
])
refac("array-e", ["C01", "C02"], "array/array.c", [
("""	if( vecA->table==NULL || vecB->table==NULL || vecB->len > vecA->cap - vecA->len ) {
		return false;
	}
	memcpy(&vecA->table[vecA->len * datasize], vecB->table, vecB->len * datasize);
	vecA->len += vecB->len;
	return true;""", """	if( vecA->table==NULL || vecB->table==NULL || vecB->len > vecA->cap - vecA->len ) {
		return false;
	}
	size_t const n = vecB->len;
	for( size_t i=0; i < n; i++ ) {
		memcpy(&vecA->table[vecA->len * datasize], &vecB->table[i * datasize], datasize);
		vecA->len++;
	}
	return true;"""),
("""	harbol_array_wipe(vecA, datasize);
	vecA->len = (vecA->cap < vecB->len? vecA->cap : vecB->len);
	memcpy(vecA->table, vecB->table, vecA->len * datasize);
	return true;""", """	size_t const n = (vecA->cap < vecB->len)? vecA->cap : vecB->len;
	memcpy(vecA->table, vecB->table, n * datasize);
	memset(&vecA->table[n * datasize], 0, (vecA->cap - n) * datasize);
	vecA->len = n;
	return true;"""),
("""	} else if( index==0 && (index + range >= vec->len) ) {
		harbol_array_wipe(vec, datasize);
		return true;
	} else if( index==vec->len-1 ) {
		memset(&vec->table[--vec->len * datasize], 0, datasize);
		return true;
	}
	return harbol_array_shift_up(vec, index, datasize, range);""", """	}
	if( index==0 && range >= vec->len ) {
		harbol_array_wipe(vec, datasize);
		return true;
	}
	return harbol_array_shift_up(vec, index, datasize, range);"""),
("""	size_t const index = harbol_array_index_of(vec, val, datasize, 0);
	return( index != SIZE_MAX )? harbol_array_del_by_index(vec, index, datasize) : false;""", """	for( size_t i=0; i < vec->len; i++ ) {
		if( vec->table != NULL && !memcmp(&vec->table[i * datasize], val, datasize) ) {
			return harbol_array_del_by_index(vec, i, datasize);
		}
	}
	return false;"""),
])
