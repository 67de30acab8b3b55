refac("lex-a", ["C15", "C16"], "lex/lex.c", [
("""	return( c==' ' || c=='\\t' || c=='\\r' || c=='\\v' || c=='\\f' || c=='\\n' );""", """	switch( c ) {
		case ' ': case '\\t': case '\\r': case '\\v': case '\\f': case '\\n':
			return true;
		default:
			return false;
	}"""),
("""	for( size_t i=7; i < 8; i-- ) {
		if( !(c & (1 << i)) ) {
			return (7 - i)==0? 1 : 7 - i;
		}
	}
	return 8;""", """	uint8_t bits = c;
	if( bits < 0x80 ) {
		return 1;
	}
	size_t n = 0;
	while( bits & 0x80 ) {
		bits <<= 1;
		n++;
	}
	return n;"""),
("""	size_t runes = 0;
	for( size_t i=0; cstr[i] != 0; ) {
		size_t const read = get_utf8_len(cstr[i]);
		for( size_t n=0; n < read && cstr[i] != 0; n++ ) {
			i++; /// a truncated sequence ends with the text.
		}
		runes++;
	}
	return runes;""", """	size_t runes = 0;
	char const *p = cstr;
	while( *p != 0 ) {
		size_t left = get_utf8_len(*p);
		while( left > 0 && *p != 0 ) {
			left--;
			p++;
		}
		++runes;
	}
	return runes;"""),
("""	for( size_t i=0; runes[i] != 0; i++ ) {
		if( c==runes[i] ) {
			return i;
		}
	}
	return SIZE_MAX;""", """	size_t i = 0;
	while( runes[i] != 0 && runes[i] != c ) {
		i++;
	}
	return runes[i]==0? SIZE_MAX : i;"""),
("""	while( *str != 0 && checker(*str) ) {
		if( *str=='\\n' ) {
			++*lines;
		}
		str++;
	}
	return str;""", """	size_t i = 0;
	for( ; str[i] != 0; i++ ) {
		char const c = str[i];
		if( !checker(c) ) {
			break;
		}
		*lines += c=='\\n';
	}
	return &str[i];"""),
("""	if( *str==0 ) {
		return str;
	}
	int_fast8_t const quote = *str++;
	while( *str != 0 && *str != quote ) {
		int_fast8_t const c = *str;
		str += ( c==esc && str[1] != 0 )? 2 : 1;
	}
	return str;""", """	char const quote = *str;
	if( quote != 0 ) {
		str++;
		while( *str != 0 && *str != quote ) {
			if( *str==esc && str[1] != 0 ) {
				str++;
			}
			str++;
		}
	}
	return str;"""),
("""	char const *begin = str;
	while( *begin != 0 && *begin != '\\n' ) {
		if( *begin=='\\\\' ) {
			while( *++begin != 0 && *begin != '\\n' );
			if( *begin=='\\n' ) {
				++*lines;
			} else {
				break;
			}
		}
		begin++;
	}
	return begin;""", """	char const *p = str;
	for( ; *p != 0 && *p != '\\n'; p++ ) {
		if( *p != '\\\\' ) {
			continue;
		}
		do {
			p++;
		} while( *p != 0 && *p != '\\n' );
		if( *p==0 ) {
			break;
		}
		++*lines;
	}
	return p;"""),
("""	char const *begin = str + (*str != 0);
	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
		if( *begin=='\\n' ) {
			++*lines;
		}
		begin++;
	}
	if( *begin != 0 ) {
		begin += end_len;
	}
	return begin;""", """	if( *str==0 ) {
		return str;
	}
	char const *begin = str + 1;
	for( ;; ) {
		if( *begin==0 ) {
			return begin;
		} else if( strncmp(end_token, begin, end_len)==0 ) {
			return begin + end_len;
		}
		if( *begin=='\\n' ) {
			++*lines;
		}
		begin++;
	}"""),
("""	while( *begin != 0 && *begin != '\\n' ) {
		if( *begin=='\\\\' ) {
			while( *++begin != 0 && *begin != '\\n' );
			if( *begin==0 ) {
				break;
			}
			memset(str, ' ', begin-str);
			str = ++begin;
		} else {
			begin++;
		}
	}
	memset(str, ' ', begin-str);
	return begin;""", """	while( *begin != 0 && *begin != '\\n' ) {
		if( *begin != '\\\\' ) {
			begin++;
			continue;
		}
		begin++;
		while( *begin != 0 && *begin != '\\n' ) {
			begin++;
		}
		if( *begin==0 ) {
			break;
		}
		size_t const span = begin - str;
		memset(str, ' ', span);
		begin++;
		str = begin;
	}
	memset(str, ' ', begin - str);
	return begin;"""),
("""	if( rune < 0x80 ) {
		return 1;
	} else if( rune < 0x800 ) {
		return 2;
	} else if( rune < 0x10000 ) {
		return 3;
	} else if( rune < 0x110000 ) {
		return 4;
	}
	return 0;""", """	if( rune >= 0x110000 ) {
		return 0;
	}
	return 1 + (rune >= 0x80) + (rune >= 0x800) + (rune >= 0x10000);"""),
("""	if( (cstr[0] & 0xF8)==0xF0 ) {
		*rune = ((cstr[0] & 0x07) << 18) | ((cstr[1] & 0x3F) << 12) | ((cstr[2] & 0x3F) << 6) | (cstr[3] & 0x3F);
		return 4;
	} else if(""", """	if( (cstr[0] & 0xF8)==0xF0 ) {
		int32_t r = cstr[0] & 0x07;
		for( size_t i=1; i < 4; i++ ) {
			r = r * 64 + (cstr[i] & 0x3F);
		}
		*rune = r;
		return 4;
	} else if("""),
])
refac("lex-b", ["C16"], "lex/lex.c", [
("""	uint32_t r = 0;
	size_t count = 0;
	if( !is_hex(*str) ) {
		r = -1;
	} else {
		for( ; *str != 0; count++ ) {
			int_fast8_t const c = *str;
			switch( c ) {
				case '0': case '1': case '2': case '3': case '4':
				case '5': case '6': case '7': case '8': case '9':
					r = (r << 4) | (c - '0'); break;
				case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
					r = (r << 4) | (c - 'a' + 10); break;
				case 'A': case 'B': case 'C': case 'D': case 'E': case 'F':
					r = (r << 4) | (c - 'A' + 10); break;
				default:
					goto exit;
			}
			str++;
		}
	}
exit:;
	*end = str;
	return r;""", """	uint32_t r = is_hex(*str)? 0 : -1;
	while( is_hex(*str) ) {
		int const digit = is_decimal(*str)? *str - '0' : (*str | 0x20) - 'a' + 10;
		r = (r << 4) | digit;
		str++;
	}
	*end = str;
	return r;"""),
("""		for( ; *str != 0; count++ ) {
			int_fast8_t const c = *str;
			if( count > 3 ) {
				return -1; /// out of range.
			} else {
				switch( c ) {
					case '0': case '1': case '2': case '3':
					case '4': case '5': case '6': case '7':
						r = (r << 3) | (c - '0'); break;
					default:
						goto exit;
				}
			}
			str++;
		}
	}
exit:;
	*end = str;
	return r;""", """		while( *str != 0 ) {
			if( count++ > 3 ) {
				return -1; /// out of range.
			}
			if( !is_octal(*str) ) {
				break;
			}
			r = (r << 3) | (*str - '0');
			str++;
		}
	}
	*end = str;
	return r;"""),
("""HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const""", """static bool _lex_prefix(char const **const str, char const lower, char const upper, struct HarbolString *const buf) {
	char const c = **str;
	harbol_string_add_char(buf, c);
	*str += 1;
	return c==lower || c==upper;
}

HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const"""),
("""	} else if( *str != 'o' && *str != 'O' ) {
		harbol_string_add_char(buf, *str++);
		result = HarbolLexMissingO;
		goto lex_go_style_octal_err;
	} else {
		harbol_string_add_char(buf, *str++);
	}
""", """	} else if( !_lex_prefix(&str, 'o', 'O', buf) ) {
		*end = str;
		return HarbolLexMissingO;
	}
"""),
("""	while( *str != 0 && (isalnum(*str) || *str==DigitSep_Go) ) {
		int_fast8_t const chr = *str;
		switch( chr ) {
			case DigitSep_Go:
				if( lit_flags & digit_sep ) { /// too many digit seps.
					harbol_string_add_char(buf, chr);
					result = HarbolLexExtraDigitSeps;
					goto lex_go_style_octal_err;
				} else {
					harbol_string_add_char(buf, chr);
					lit_flags |= digit_sep;
				}
				break;
			case '0': case '1': case '2': case '3':
			case '4': case '5': case '6': case '7':
				harbol_string_add_char(buf, chr);
				lit_flags &= ~digit_sep;
				break;
			default: /// bad digit/glyph.
				harbol_string_add_char(buf, chr);
				result = HarbolLexBadGylph;
				goto lex_go_style_octal_err;
				break;
		}
		str++;
	}
""", """	for( ; *str != 0 && (isalnum(*str) || *str==DigitSep_Go); str++ ) {
		char const chr = *str;
		harbol_string_add_char(buf, chr);
		if( chr==DigitSep_Go ) {
			if( lit_flags & digit_sep ) { /// too many digit seps.
				result = HarbolLexExtraDigitSeps;
				goto lex_go_style_octal_err;
			}
			lit_flags |= digit_sep;
		} else if( is_octal(chr) ) {
			lit_flags &= ~digit_sep;
		} else {
			result = HarbolLexBadGylph;
			goto lex_go_style_octal_err;
		}
	}
"""),
])
