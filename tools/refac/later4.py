refac("str-e", ["C04", "C05"], "str/str.c", [
("""	for( size_t i=0; i < amount; i++ ) {
		str->cstr[str->len-i-1] = c;
	}
	return true;""", """	memset(&str->cstr[str->len - amount], c, amount);
	return true;"""),
("""	size_t const cstr_len = strlen(cstr);
	if( cstr_len==0 || !_harbol_resize_string(str, str->len + cstr_len) ) {
		return false;
	}
	strcat(str->cstr, cstr);
	return true;""", """	size_t const old_len = str->len;
	size_t const cstr_len = strlen(cstr);
	if( cstr_len==0 || !_harbol_resize_string(str, old_len + cstr_len) ) {
		return false;
	}
	memcpy(&str->cstr[old_len], cstr, cstr_len + 1);
	return true;"""),
("""	strcpy(strA->cstr, strB->cstr);
	return true;""", """	memcpy(strA->cstr, strB->cstr, strB->len + 1);
	return true;"""),
("""	size_t const half_len = str->len / 2;
	for( size_t i=0; i < half_len; i++ ) {
		if( str->cstr[i] != str->cstr[str->len - i - 1] ) {
			return false;
		}
	}
	return true;""", """	char const *left = str->cstr;
	char const *right = str->cstr + str->len - 1;
	while( left < right ) {
		if( *left++ != *right-- ) {
			return false;
		}
	}
	return true;"""),
("""	size_t counts = 0;
	for( size_t i=0; i < (str->len + 1); i++ ) {
		if( str->cstr[i]==occurrence ) {
			counts++;
		}
	}
	return counts;""", """	size_t counts = 0, i = str->len + 1;
	do {
		i--;
		counts += str->cstr[i]==occurrence;
	} while( i > 0 );
	return counts;"""),
("""	size_t occurrences = 0;
	size_t const occ_len = strlen(occurrence);
	if( occ_len==0 ) {
		return 0;
	}
	char const *pos = strstr(str->cstr, occurrence);
	while( pos != NULL ) {
		occurrences++;
		pos = strstr(pos + occ_len, occurrence);
	}
	return occurrences;""", """	size_t const occ_len = strlen(occurrence);
	size_t occurrences = 0;
	if( occ_len > 0 ) {
		for( char const *pos = str->cstr; (pos = strstr(pos, occurrence)) != NULL; pos += occ_len ) {
			++occurrences;
		}
	}
	return occurrences;"""),
("""	for( size_t i=0, n=str->len-1; i < half_len; i++, n-- ) {
		int_fast8_t const t = str->cstr[i];
		str->cstr[i] = str->cstr[n];
		str->cstr[n] = t;
		got_something |= true;
	}
	return got_something;""", """	for( size_t i=0; i < half_len; i++ ) {
		size_t const n = str->len - 1 - i;
		char const t = str->cstr[n];
		str->cstr[n] = str->cstr[i];
		str->cstr[i] = t;
	}
	got_something = half_len > 0;
	return got_something;"""),
("""	size_t j = 0, counts = 0;
	for( size_t i=0; str->cstr[i] != 0; i++ ) {
		if( str->cstr[i] != c ) {
			str->cstr[j++] = str->cstr[i];
		} else {
			counts++;
		}
	}
	str->cstr[j] = 0;
	str->len = j;
	return counts;""", """	size_t kept = 0, i = 0;
	while( str->cstr[i] != '\\0' ) {
		char const x = str->cstr[i];
		if( x != c ) {
			str->cstr[kept] = x;
			kept++;
		}
		i++;
	}
	str->len = kept;
	str->cstr[kept] = '\\0';
	return i - kept;"""),
("""	for( size_t i=0; i < offsets_len; i++ ) {
		size_t const curr_offs = offset;
		size_t const diff = _subcstr_diff(&str->cstr[curr_offs], occurrence);
		if( diff==SIZE_MAX ) {
			offsets[i] = SIZE_MAX;
			continue;
		}
		offset += diff;
		offsets[i] = offset;
		offset++;
	}
	return true;""", """	for( size_t i=0; i < offsets_len; i++ ) {
		char const *const pos = strstr(&str->cstr[offset], occurrence);
		if( pos==NULL ) {
			offsets[i] = SIZE_MAX;
		} else {
			offsets[i] = ( size_t )(pos - str->cstr);
			offset = offsets[i] + 1;
		}
	}
	return true;"""),
("""	strcat(s.cstr, str->cstr);
	strcat(s.cstr, with);
	strcat(s.cstr, &end[1]);
	harbol_string_clear(str);
	*str = s;
	return true;""", """	strcpy(s.cstr, str->cstr);
	strcat(s.cstr, with);
	strcat(s.cstr, end + 1);
	free(str->cstr);
	str->cstr = s.cstr;
	str->len = s.len;
	return true;"""),
])
refac("lex-e", ["C16", "C15"], "lex/lex.c", [
("""	while( *str != 0 && checker(*str) ) {
		if( *str=='\\n' ) {
			++*lines;
		}
		str++;
	}
	return str;
}

HARBOL_EXPORT char const *skip_chars_until_newline""", """	uint32_t newlines = 0;
	size_t i = 0;
	for( ; str[i] != 0 && checker(str[i]); i++ ) {
		newlines += str[i]=='\\n';
	}
	*lines += newlines;
	return &str[i];
}

HARBOL_EXPORT char const *skip_chars_until_newline"""),
("""	int_fast8_t const quote = *str++;
	while( *str != 0 && *str != quote ) {
		int_fast8_t const c = *str;
		str += ( c==esc && str[1] != 0 )? 2 : 1;
	}
	return str;""", """	char const quote = str[0];
	size_t i = 1;
	for( ; str[i] != 0 && str[i] != quote; i++ ) {
		if( str[i]==esc && str[i + 1] != 0 ) {
			i++;
		}
	}
	return str + i;"""),
("""	while( *begin != 0 && *begin != '\\n' ) {
		if( *begin=='\\\\' ) {
			while( *++begin != 0 && *begin != '\\n' );
			if( *begin=='\\n' ) {
				++*lines;
			} else {
				break;
			}
		}
		begin++;
	}
	return begin;
}
HARBOL_EXPORT char const *skip_multi""", """	for( ; *begin != 0 && *begin != '\\n'; begin++ ) {
		if( *begin != '\\\\' ) {
			continue;
		}
		do {
			begin++;
		} while( *begin != 0 && *begin != '\\n' );
		if( *begin==0 ) {
			return begin;
		}
		(*lines)++;
	}
	return begin;
}
HARBOL_EXPORT char const *skip_multi"""),
("""	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
		if( *begin=='\\n' ) {
			++*lines;
		}
		begin++;
	}
	if( *begin != 0 ) {
		begin += end_len;
	}
	return begin;""", """	for( ; *begin != 0; begin++ ) {
		if( strncmp(begin, end_token, end_len)==0 ) {
			return begin + end_len;
		} else if( *begin=='\\n' ) {
			*lines += 1;
		}
	}
	return begin;"""),
("""	if( *str != 0 ) {
		harbol_string_add_char(buf, *str++);
	}
	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
		if( *str=='\\n' ) {
			++*lines;
		}
		harbol_string_add_char(buf, *str++);
	}
	harbol_string_add_cstr(buf, end_token);
	if( *str != 0 ) {
		str += end_len;
	}
	*end = str;
	return buf->len > 0;""", """	char const *iter = str;
	if( *iter != 0 ) {
		harbol_string_add_char(buf, *iter);
		iter++;
	}
	for( ; *iter != 0 && strncmp(end_token, iter, end_len) != 0; iter++ ) {
		*lines += ( *iter=='\\n' );
		harbol_string_add_char(buf, *iter);
	}
	*end = ( *iter==0 )? iter : iter + end_len;
	harbol_string_add_cstr(buf, end_token);
	return buf->len != 0;"""),
])
refac("bytebuffer-d", ["C03"], "bytebuffer/bytebuffer.c", [
("""	size_t const cstr_len = strlen(cstr);
	if( buf->len + cstr_len + 1 >= buf->cap && !_harbol_buffer_resize(buf, buf->len + cstr_len + 1) ) {
		return false;
	}
	strcpy(( char* )(&buf->table[buf->len]), cstr);
	buf->len += cstr_len;
	buf->table[buf->len++] = 0;
	return true;""", """	return harbol_bytebuffer_insert_obj(buf, cstr, strlen(cstr) + 1);"""),
("""	memset(&buf->table[buf->len], 0, amount);
	buf->len += amount;
	return true;""", """	uint8_t *dst = buf->table + buf->len;
	buf->len += amount;
	for( uint8_t *const end = dst + amount; dst != end; dst++ ) {
		*dst = 0;
	}
	return true;"""),
])
