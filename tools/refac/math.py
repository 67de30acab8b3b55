refac("math-a", ["C21"], "math/math_parser.c", [
("static NO_NULL bool _harbol_math_get_token(", """static bool _take(struct HarbolMathLexer *const ls, char const c, enum HarbolMathTokenType const tag) {
	ls->tok.lexeme[ls->tok.size++] = c;
	ls->tok.tag = tag;
	ls->idx++;
	return true;
}

static NO_NULL bool _harbol_math_get_token("""),
("""			case '(': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenLParen;
				return true;
			}
""", """			case '(':
				return _take(ls, expression[ls->idx], TokenLParen);
"""),
("""			case ')': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenRParen;
				return true;
			}
""", """			case ')':
				return _take(ls, expression[ls->idx], TokenRParen);
"""),
("""			case '[': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenLBrack;
				return true;
			}
""", """			case '[':
				return _take(ls, expression[ls->idx], TokenLBrack);
"""),
("""			case ']': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenRBrack;
				return true;
			}
""", """			case ']':
				return _take(ls, expression[ls->idx], TokenRBrack);
"""),
("""			case '+': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenPlus;
				return true;
			}
""", """			case '+':
				return _take(ls, expression[ls->idx], TokenPlus);
"""),
("""			case '-': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenSub;
				return true;
			}
""", """			case '-':
				return _take(ls, expression[ls->idx], TokenSub);
"""),
("""			case '*': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenMul;
				return true;
			}
""", """			case '*':
				return _take(ls, expression[ls->idx], TokenMul);
"""),
("""			case '/': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenDiv;
				return true;
			}
""", """			case '/':
				return _take(ls, expression[ls->idx], TokenDiv);
"""),
("""			case '^': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->idx++;
				ls->tok.size++;
				ls->tok.tag = TokenPow;
				return true;
			}
""", """			case '^':
				return _take(ls, expression[ls->idx], TokenPow);
"""),
])
refac("math-b", ["C21"], "math/math_parser.c", [
("""	if( ls->tok.tag==TokenPlus || ls->tok.tag==TokenSub ) {
		while( ls->tok.tag==TokenPlus || ls->tok.tag==TokenSub ) {
			enum HarbolMathTokenType const t = ls->tok.tag;
			_harbol_math_get_token(ls, expression);
			if( t==TokenPlus ) {
				val += harbol_math_parse_mul_expr(ls, expression);
			} else if( t==TokenSub ) {
				val -= harbol_math_parse_mul_expr(ls, expression);
			}
		}
	}
	return val;""", """	for( ;; ) {
		bool const plus = ls->tok.tag==TokenPlus;
		if( !plus && ls->tok.tag != TokenSub ) {
			return val;
		}
		_harbol_math_get_token(ls, expression);
		floatmax_t const rhs = harbol_math_parse_mul_expr(ls, expression);
		val = plus? val + rhs : val - rhs;
	}"""),
("""	floatmax_t val = harbol_math_parse_pow_expr(ls, expression);
	if( ls->tok.tag==TokenMul || ls->tok.tag==TokenDiv ) {
		while( ls->tok.tag==TokenMul || ls->tok.tag==TokenDiv ) {
			enum HarbolMathTokenType const t = ls->tok.tag;
			_harbol_math_get_token(ls, expression);
			if( t==TokenMul ) {
				val *= harbol_math_parse_pow_expr(ls, expression);
			} else if( t==TokenDiv ) {
				val /= harbol_math_parse_pow_expr(ls, expression);
			}
		}
	}
	return val;""", """	floatmax_t res = harbol_math_parse_pow_expr(ls, expression);
	while( ls->tok.tag==TokenMul || ls->tok.tag==TokenDiv ) {
		switch( ls->tok.tag ) {
			case TokenMul:
				_harbol_math_get_token(ls, expression);
				res *= harbol_math_parse_pow_expr(ls, expression);
				break;
			default:
				_harbol_math_get_token(ls, expression);
				res /= harbol_math_parse_pow_expr(ls, expression);
				break;
		}
	}
	return res;"""),
("""	if( ls->tok.tag==TokenPow ) {
		while( ls->tok.tag==TokenPow ) {
			_harbol_math_get_token(ls, expression);
			val = pow(val, harbol_math_parse_unary_expr(ls, expression));
		}
	}
	return val;""", """	while( ls->tok.tag==TokenPow ) {
		_harbol_math_get_token(ls, expression);
		floatmax_t const exponent = harbol_math_parse_unary_expr(ls, expression);
		val = pow(val, exponent);
	}
	return val;"""),
("""	return( ls.malformed || ls.tok.tag != TokenInvalid )? ( floatmax_t )(NAN) : val;""", """	if( ls.tok.tag != TokenInvalid ) {
		ls.malformed = true;
	}
	if( ls.malformed ) {
		return NAN;
	}
	return val;"""),
])
refac("math-c", ["C21"], "math/math_parser.c", [
("""		if( ls->tok.size >= LEXEME_SIZE-1 ) {
			/// literal doesn't fit the zero-terminated lexeme.
			return false;
		}
		switch( expression[ls->idx] ) {
			case '0': case '1': case '2': case '3': case '4':
			case '5': case '6': case '7': case '8': case '9': {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->tok.size++;
				ls->idx++;
				break;
			}
			case '.': {
				if( has_dot ) {
					//LogError("ConfigMap-Math :: extra dot in decimal literal");
					return false;
				}
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->tok.size++;
				ls->idx++;
				has_dot = true;
				break;
			}
			default: {
				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
				ls->tok.size++;
				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
				return false;
			}
		}
""", """		char const c = expression[ls->idx];
		if( ls->tok.size + 1 >= LEXEME_SIZE || (c=='.' && has_dot) || (c != '.' && (c < '0' || c > '9')) ) {
			return false;
		}
		if( c=='.' ) {
			has_dot = true;
		}
		ls->tok.lexeme[ls->tok.size++] = c;
		ls->idx++;
"""),
("""	while( ls->idx < ls->expr_len ) {
		switch( expression[ls->idx] ) {
			case ' ': case '\\t': case '\\n': case '\\r': {
				ls->idx++;
				break;
			}
""", """	while( expression[ls->idx]==' ' || expression[ls->idx]=='\\t' || expression[ls->idx]=='\\n' || expression[ls->idx]=='\\r' ) {
		ls->idx++;
	}
	if( ls->idx < ls->expr_len ) {
		switch( expression[ls->idx] ) {
"""),
("""		case TokenLParen: {
			_harbol_math_get_token(ls, expression);
			floatmax_t const f = harbol_math_parse_add_expr(ls, expression);
			if( ls->tok.tag != TokenRParen ) {
				//LogError("ConfigMap-Math :: expected ')' bracket but got '%s'", ls->tok.lexeme);
				ls->malformed = true;
				return value.f;
			}
			_harbol_math_get_token(ls, expression);
			return f;
		}
		case TokenLBrack: {
			_harbol_math_get_token(ls, expression);
			floatmax_t const f = harbol_math_parse_add_expr(ls, expression);
			if( ls->tok.tag != TokenRBrack ) {
				//LogError("ConfigMap-Math :: expected ']' bracket but got '%s'", ls->tok.lexeme);
				ls->malformed = true;
				return value.f;
			}
			_harbol_math_get_token(ls, expression);
			return f;
		}
""", """		case TokenLParen: case TokenLBrack: {
			enum HarbolMathTokenType const closer = ls->tok.tag==TokenLParen? TokenRParen : TokenRBrack;
			_harbol_math_get_token(ls, expression);
			floatmax_t const f = harbol_math_parse_add_expr(ls, expression);
			if( ls->tok.tag==closer ) {
				_harbol_math_get_token(ls, expression);
				return f;
			}
			ls->malformed = true;
			return value.f;
		}
"""),
("""	floatmax_t val;
	ls->depth++;
	if( ls->tok.tag==TokenSub ) {
		_harbol_math_get_token(ls, expression);
		val = -harbol_math_parse_unary_expr(ls, expression);
	} else if( ls->tok.tag==TokenPlus ) {
		_harbol_math_get_token(ls, expression);
		val = fabs( harbol_math_parse_unary_expr(ls, expression) );
	} else {
		val = harbol_math_parse_factor(ls, expression);
	}
	ls->depth--;
	return val;""", """	enum HarbolMathTokenType const sign = ls->tok.tag;
	ls->depth++;
	floatmax_t val;
	if( sign==TokenSub || sign==TokenPlus ) {
		_harbol_math_get_token(ls, expression);
		floatmax_t const operand = harbol_math_parse_unary_expr(ls, expression);
		val = sign==TokenSub? -operand : fabs(operand);
	} else {
		val = harbol_math_parse_factor(ls, expression);
	}
	ls->depth--;
	return val;"""),
])
