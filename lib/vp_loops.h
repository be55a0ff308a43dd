/* defaults: no loop contract (generated by mkloops.py) */
#ifndef VPG_append_json_string_escaped
# define VPG_append_json_string_escaped
#endif
#ifndef VPG_increment_key
# define VPG_increment_key
#endif
#ifndef VPG_is_right_wildcard
# define VPG_is_right_wildcard
#endif
#ifndef VPG_my_crc32c_slicing
# define VPG_my_crc32c_slicing
#endif
#ifndef VPG_my_crc32c_sse42
# define VPG_my_crc32c_sse42
#endif
#ifndef VPG_my_hashlittle2_1
# define VPG_my_hashlittle2_1
#endif
#ifndef VPG_my_hashlittle2_2
# define VPG_my_hashlittle2_2
#endif
#ifndef VPG_my_hashlittle2_3
# define VPG_my_hashlittle2_3
#endif
#ifndef VPG_my_hashlittle_1
# define VPG_my_hashlittle_1
#endif
#ifndef VPG_my_hashlittle_2
# define VPG_my_hashlittle_2
#endif
#ifndef VPG_my_hashlittle_3
# define VPG_my_hashlittle_3
#endif
#ifndef VPG_my_uint64_to_str_digit
# define VPG_my_uint64_to_str_digit
#endif
#ifndef VPG_remove_iter_next
# define VPG_remove_iter_next
#endif
#ifndef VPG_rrtype_union_check_block
# define VPG_rrtype_union_check_block
#endif
#ifndef VPG_rrtype_union_check_end
# define VPG_rrtype_union_check_end
#endif
#ifndef VPG_rrtype_union_unpack_block
# define VPG_rrtype_union_unpack_block
#endif
#ifndef VPG_rrtype_union_unpack_end
# define VPG_rrtype_union_unpack_end
#endif
#ifndef VPG_rrtype_union_unpack_out
# define VPG_rrtype_union_unpack_out
#endif
#ifndef VPG_siftdown_move
# define VPG_siftdown_move
#endif
#ifndef VPG_siftdown_step
# define VPG_siftdown_step
#endif
#ifndef VPG_siftup_move
# define VPG_siftup_move
#endif
#ifndef VPG_siftup_step
# define VPG_siftup_step
#endif
#ifndef VPG_vnum_to_str_count
# define VPG_vnum_to_str_count
#endif
#ifndef VPG_vnum_to_str_digit
# define VPG_vnum_to_str_digit
#endif
#ifndef VPL_append_json_string_escaped
# define VPL_append_json_string_escaped
#endif
#ifndef VPL_dnstable_entry_to_json_fmt_raw
# define VPL_dnstable_entry_to_json_fmt_raw
#endif
#ifndef VPL_dnstable_entry_to_json_fmt_rdata
# define VPL_dnstable_entry_to_json_fmt_rdata
#endif
#ifndef VPL_filter_iter_next
# define VPL_filter_iter_next
#endif
#ifndef VPL_fmt_hex_str
# define VPL_fmt_hex_str
#endif
#ifndef VPL_fmt_rrtypes_union_json
# define VPL_fmt_rrtypes_union_json
#endif
#ifndef VPL_heap_heapify
# define VPL_heap_heapify
#endif
#ifndef VPL_increment_key
# define VPL_increment_key
#endif
#ifndef VPL_is_right_wildcard
# define VPL_is_right_wildcard
#endif
#ifndef VPL_my_bytes_to_hex_str
# define VPL_my_bytes_to_hex_str
#endif
#ifndef VPL_my_crc32c_slicing
# define VPL_my_crc32c_slicing
#endif
#ifndef VPL_my_crc32c_sse42
# define VPL_my_crc32c_sse42
#endif
#ifndef VPL_my_hashlittle2_1
# define VPL_my_hashlittle2_1
#endif
#ifndef VPL_my_hashlittle2_2
# define VPL_my_hashlittle2_2
#endif
#ifndef VPL_my_hashlittle2_3
# define VPL_my_hashlittle2_3
#endif
#ifndef VPL_my_hashlittle_1
# define VPL_my_hashlittle_1
#endif
#ifndef VPL_my_hashlittle_2
# define VPL_my_hashlittle_2
#endif
#ifndef VPL_my_hashlittle_3
# define VPL_my_hashlittle_3
#endif
#ifndef VPL_my_uint64_to_str
# define VPL_my_uint64_to_str
#endif
#ifndef VPL_parse_time
# define VPL_parse_time
#endif
#ifndef VPL_query_iter_next
# define VPL_query_iter_next
#endif
#ifndef VPL_reader_iter_next
# define VPL_reader_iter_next
#endif
#ifndef VPL_rrtype_union_check
# define VPL_rrtype_union_check
#endif
#ifndef VPL_rrtype_union_unpack
# define VPL_rrtype_union_unpack
#endif
#ifndef VPL_rrtype_union_unpack_bit
# define VPL_rrtype_union_unpack_bit
#endif
#ifndef VPL_rrtype_union_unpack_byte
# define VPL_rrtype_union_unpack_byte
#endif
#ifndef VPL_siftdown
# define VPL_siftdown
#endif
#ifndef VPL_siftup
# define VPL_siftup
#endif
#ifndef VPL_varint_length_packed
# define VPL_varint_length_packed
#endif
#ifndef VPL_vnum_to_str
# define VPL_vnum_to_str
#endif
