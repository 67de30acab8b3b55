refac("str-loops", ["C04", "C05"], "str/str.c", [
("""	for( size_t i=0; i < amount; i++ ) {
		str->cstr[str->len-i-1] = c;
	}
	return true;""", """	size_t const old_len = str->len - amount;
	memset(&str->cstr[old_len], c, amount);
	return true;"""),
("""	strcat(str->cstr, cstr);
	return true;""", """	memcpy(&str->cstr[str->len - cstr_len], cstr, cstr_len);
	return true;"""),
("""	strcpy(strA->cstr, strB->cstr);
	return true;""", """	memcpy(strA->cstr, strB->cstr, strB->len);
	return true;"""),
("""	strcpy(str->cstr, cstr);
	return true;""", """	memcpy(str->cstr, cstr, cstr_len + 1);
	return true;"""),
("""	size_t const half_len = str->len / 2;
	for( size_t i=0; i < half_len; i++ ) {
		if( str->cstr[i] != str->cstr[str->len - i - 1] ) {
			return false;
		}
	}
	return true;""", """	size_t lo = 0, hi = str->len - 1;
	while( lo < hi ) {
		if( str->cstr[lo] != str->cstr[hi] ) {
			return false;
		}
		++lo; --hi;
	}
	return true;"""),
("""	for( size_t i=0; i < (str->len + 1); i++ ) {
		if( str->cstr[i]==to_replace ) {
			str->cstr[i] = with;
			got_something |= true;
		}
	}""", """	size_t i = 0;
	while( i < str->len ) {
		if( str->cstr[i]==to_replace ) {
			str->cstr[i] = with;
			got_something = true;
		}
		++i;
	}"""),
("""	size_t counts = 0;
	for( size_t i=0; i < (str->len + 1); i++ ) {
		if( str->cstr[i]==occurrence ) {
			counts++;
		}
	}
	return counts;""", """	size_t counts = 0;
	char const *p = str->cstr;
	for( size_t i=0; i <= str->len; i++, p++ ) {
		counts += *p==occurrence;
	}
	return counts;"""),
("""	for( size_t i=0; i < (str->len + 1); i++ ) {
		if( islower(str->cstr[i]) ) {
			str->cstr[i] = toupper(str->cstr[i]);
			got_something |= true;
		}
	}""", """	for( char *p=str->cstr; p < str->cstr + str->len; p++ ) {
		if( islower(*p) ) {
			*p = toupper(*p);
			got_something = true;
		}
	}"""),
("""		if( isupper(str->cstr[i]) ) {
			str->cstr[i] = tolower(str->cstr[i]);
			got_something |= true;
		}""", """		char const ch = str->cstr[i];
		if( !isupper(ch) ) {
			continue;
		}
		str->cstr[i] = tolower(ch);
		got_something = true;"""),
("""	bool got_something = false;
	size_t const half_len = str->len / 2;
	for( size_t i=0, n=str->len-1; i < half_len; i++, n-- ) {
		int_fast8_t const t = str->cstr[i];
		str->cstr[i] = str->cstr[n];
		str->cstr[n] = t;
		got_something |= true;
	}
	return got_something;""", """	size_t const half_len = str->len / 2;
	for( size_t i=0; i < half_len; ++i ) {
		size_t const n = str->len - 1 - i;
		char const t = str->cstr[n];
		str->cstr[n] = str->cstr[i];
		str->cstr[i] = t;
	}
	return half_len > 0;"""),
("""	size_t j = 0, counts = 0;
	for( size_t i=0; str->cstr[i] != 0; i++ ) {
		if( str->cstr[i] != c ) {
			str->cstr[j++] = str->cstr[i];
		} else {
			counts++;
		}
	}
	str->cstr[j] = 0;
	str->len = j;
	return counts;""", """	size_t j = 0, i = 0;
	while( str->cstr[i] != 0 ) {
		char const ch = str->cstr[i++];
		if( ch != c ) {
			str->cstr[j] = ch;
			++j;
		}
	}
	str->cstr[j] = 0;
	str->len = j;
	return i - j;"""),
("""		if( !isspace(str->cstr[i]) ) {
			str->cstr[j++] = str->cstr[i];
		} else {
			counts++;
			str->len--;
		}
	}
	str->cstr[j] = 0;
	return counts;""", """		if( isspace(str->cstr[i]) ) {
			counts++;
			continue;
		}
		str->cstr[j++] = str->cstr[i];
	}
	str->cstr[j] = 0;
	str->len -= counts;
	return counts;"""),
])
refac("str-helpers", ["C04", "C05"], "str/str.c", [
("""HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char const c) {
	if( !_harbol_resize_string(str, str->len + 1) ) {
		return false;
	}
	str->cstr[str->len-1] = c;
	return true;
}""", """static void fill_chars(char *const dst, char const c, size_t const amount) {
	for( size_t i=0; i < amount; ++i ) {
		dst[i] = c;
	}
}
static bool grow_by(struct HarbolString *const str, size_t const extra) {
	return _harbol_resize_string(str, str->len + extra);
}
static bool map_chars(struct HarbolString *const str, int (*pred)(int), int (*conv)(int)) {
	if( str->cstr==NULL ) {
		return false;
	}
	bool changed = false;
	for( size_t i=0; i < str->len; i++ ) {
		if( pred(str->cstr[i]) ) {
			str->cstr[i] = conv(str->cstr[i]);
			changed = true;
		}
	}
	return changed;
}
HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char const c) {
	if( !grow_by(str, 1) ) {
		return false;
	}
	fill_chars(&str->cstr[str->len-1], c, 1);
	return true;
}"""),
("""	for( size_t i=0; i < amount; i++ ) {
		str->cstr[str->len-i-1] = c;
	}
	return true;""", """	fill_chars(&str->cstr[str->len - amount], c, amount);
	return true;"""),
("""	size_t const lenA = strA->len, lenB = strB->len;
	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
		return false;
	}""", """	if( strB->cstr==NULL ) {
		return false;
	}
	size_t const lenB = strB->len;
	size_t const lenA = strA->len;
	if( !grow_by(strA, lenB) ) {
		return false;
	}"""),
("""	if( str->cstr==NULL ) {
		return false;
	}
	bool got_something = false;
	for( size_t i=0; i < (str->len + 1); i++ ) {
		if( islower(str->cstr[i]) ) {
			str->cstr[i] = toupper(str->cstr[i]);
			got_something |= true;
		}
	}
	return got_something;""", """	return map_chars(str, islower, toupper);"""),
("""	return( strA->cstr==NULL || strB->cstr==NULL )? -1 : strncmp(strA->cstr, strB->cstr, strA->len > strB->len? strA->len : strB->len);""",
"""	if( strA->cstr==NULL || strB->cstr==NULL ) {
		return -1;
	}
	return strcmp(strA->cstr, strB->cstr);"""),
("""	size_t const cstr_len = strlen(cstr);
	return strncmp(cstr, str->cstr, (str->len > cstr_len)? str->len : cstr_len);""", """	return strcmp(cstr, str->cstr);"""),
("""	return _find_chr(str->cstr, c);""", """	for( size_t i=0; i <= str->len; i++ ) {
		if( str->cstr[i]==c ) {
			return i;
		}
	}
	return SIZE_MAX;"""),
])
refac("str-c", ["C05"], "str/str.c", [
("""	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
	size_t const len_calc = str->len + (amount * (with_len - replace_len));
	if( !_harbol_resize_string(&rep_str, len_calc) ) {
		return false;
	}
	size_t rep_len = 0;
	/// first copy contents up to the first offset.
	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
	rep_len += offset;
	offset += replace_len;
	
	strcpy(&rep_str.cstr[rep_len], with);
	rep_len += with_len;
	for( size_t i=1; i < amount; i++ ) {
		size_t const saved_offset = offset;
		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
		if( relative_offs==SIZE_MAX ) {
			break;
		}
		
		offset += relative_offs;
		size_t const span = offset - saved_offset;
		strncpy(&rep_str.cstr[rep_len], &str->cstr[saved_offset], span);
		rep_len += span;
		
		strcpy(&rep_str.cstr[rep_len], with);
		rep_len += with_len;
		offset += replace_len;
	}
	strcpy(&rep_str.cstr[rep_len], &str->cstr[offset]);
	rep_len += offset;
	
""", """	size_t const len_calc = str->len + (amount * (with_len - replace_len));
	if( !_harbol_resize_string(&rep_str, len_calc) ) {
		return false;
	}
	char const *src = str->cstr;
	char *dst = rep_str.cstr;
	for( size_t i=0; i < amount; i++ ) {
		char const *const hit = strstr(src, to_replace);
		if( hit==NULL ) {
			break;
		}
		size_t const span = ( size_t )(hit - src);
		memcpy(dst, src, span);
		dst += span;
		memcpy(dst, with, with_len);
		dst += with_len;
		src = hit + replace_len;
	}
	strcpy(dst, src);
	
"""),
])
