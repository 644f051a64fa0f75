"""Frozen response layouts (SPC-4 r36/r37, SBC-3/4, SES-3 r05, SAT-3 r04), written from the standards.

A layout is a tree: a dict is a structure (attribute name -> layout), a list is a list of layouts, a leaf is one of the
tuples made by the helpers below.  Offsets are absolute in the response.
"""


def F(byte, hi, lo=None):
    """bits hi..lo of one byte, unsigned"""
    return ('u', [(byte, hi, hi if lo is None else lo)])


def U(a, b=None):
    """unsigned big-endian bytes a..b-1"""
    return ('u', [(i, 7, 0) for i in range(a, a + 1 if b is None else b)])


def S(a, b=None):
    """two's complement big-endian"""
    return ('s', [(i, 7, 0) for i in range(a, a + 1 if b is None else b)])


def CAT(*parts):
    """concatenated bit ranges, most significant first"""
    return ('u', [(p[0], p[1], p[2]) for p in parts])


def UF(a, b, hi, lo):
    """big-endian bytes a..b-1 whose first byte has only the bits hi..lo"""
    return ('u', [(a, hi, lo)] + [(i, 7, 0) for i in range(a + 1, b)])


def RAW(a, b):
    """bytes as they are"""
    return ('raw', list(range(a, b)))


def RAWX(idx):
    return ('raw', list(idx))


def TEXT(a, b):
    """characters of bytes a..b-1"""
    return ('text', list(range(a, b)))


def TEXTX(idx):
    return ('text', list(idx))


def C(v):
    return ('const', v)


ABSENT = ('absent',)
PERIPHERAL = {'qualifier': F(0, 7, 5), 'type': F(0, 4, 0)}


# ------------------------------------------------------------------------------------------------ standard INQUIRY
def standard_inquiry(n):
    """n: length of the standard data the device declares (additional length + 5)"""
    t = {'peripheral_device': PERIPHERAL, 'rmb': F(1, 7), 'cong': F(1, 6), 'version': U(2), 'normaca': F(3, 5), 'hisup': F(3, 4),
         'response_data_format': F(3, 3, 0), 'additional_length': U(4), 'sccs': F(5, 7), 'acc': F(5, 6), 'tpgs': F(5, 5, 4),
         'threepc': F(5, 3), 'protect': F(5, 0), 'enc_serv': F(6, 6), 'multi_p': F(6, 4), 'addr16': F(6, 0), 'wbus16': F(7, 5),
         'sync': F(7, 4), 'cmd_que': F(7, 1), 't10_vendor_identification': TEXT(8, 16), 'product_identification': TEXT(16, 32),
         'product_revision_level': TEXT(32, 36), 'extended': ABSENT}
    if n > 36:
        x = {'vendor_specific_1': RAW(36, min(56, n)), 'clocking': ABSENT, 'qas': ABSENT, 'ius': ABSENT,
             'version_descriptors': ABSENT, 'vendor_specific_2': ABSENT}
        if n >= 57:
            x.update(clocking=F(56, 3, 2), qas=F(56, 1), ius=F(56, 0))
        if n >= 60:
            x['version_descriptors'] = [U(i, i + 2) for i in range(58, min(n - 1, 74), 2)]
        if n > 96:
            x['vendor_specific_2'] = RAW(96, n)
        t['extended'] = x
    return t


# ------------------------------------------------------------------------------------------------ VPD pages
def vpd(**kw):
    t = {'peripheral_device': PERIPHERAL, 'page_code': U(1), 'page_length': U(2, 4)}
    t.update(kw)
    return t


def vpd_supported(n):
    return vpd(page_length=U(3), vpd_parameters=[U(4 + i) for i in range(n)])


def vpd_serial(n):
    return vpd(page_length=U(3), product_serial_number=TEXT(4, 4 + n))


BLOCK_LIMITS = vpd(wsnz=F(4, 0), maximum_compare_and_write_length=U(5), optimal_transfer_length_granularity=U(6, 8),
                   maximum_transfer_length=U(8, 12), optimal_transfer_length=U(12, 16),
                   maximum_prefetch_xdread_xdwrite_transfer_length=U(16, 20), maximum_unmap_lba_count=U(20, 24),
                   maximum_unmap_block_descriptor_count=U(24, 28), optimal_unmap_granularity=U(28, 32), ugavalid=F(32, 7),
                   unmap_granularity_alignment=UF(32, 36, 6, 0), maximum_write_same_length=U(36, 44))

LBP = vpd(threshold_exponent=U(4), lbpu=F(5, 7), lbpws=F(5, 6), lbpws10=F(5, 5), lbprz=F(5, 2), anc_sup=F(5, 1), dp=F(5, 0),
          provisioning_type=F(6, 2, 0))

VERITAS = vpd(is_thin_lun=F(4, 0), is_snapshot_lun=F(4, 1), is_space_optimized_src=F(4, 2), is_fcdisk_lun=F(4, 3),
              is_satadisk_lun=F(4, 4), is_replication_src=F(4, 5), is_replication_dst=F(4, 6), raid_type=U(5))


def swapped(first_word, last_word, base=60):
    """ATA strings hold the first character in the high byte of each (little-endian) word"""
    out = []
    for w in range(first_word, last_word + 1):
        out += [base + 2 * w + 1, base + 2 * w]
    return out


# the signature is the device-to-host register FIS; its LBA is kept as the bytes 7:0 15:8 23:16 31:24 39:32 47:40
ATA = vpd(sat_vendor_identification=TEXT(8, 16), sat_product_identification=TEXT(16, 32), sat_product_revision_level=TEXT(32, 36),
          device_signature={'transport_id': U(36), 'interrupt': F(37, 6), 'pm_port': F(37, 3, 0), 'status': U(38), 'error': U(39),
                            'lba': RAWX([40, 41, 42, 44, 45, 46]), 'device': U(43), 'sector_count': CAT((49, 7, 0), (48, 7, 0))},
          command_code=U(56),
          identify_device={'serial_number': TEXTX(swapped(10, 19)), 'firmware_revision': TEXTX(swapped(23, 26)),
                           'model_number': TEXTX(swapped(27, 46))})


def vpd_unknown(n):
    return vpd(page_data=[U(4 + i) for i in range(n)])


# ------------------------------------------------------------------------------------------------ designators
# name -> (type, length, constant bytes relative to the descriptor, layout relative to the descriptor)
def designator_header(o):
    return {'protocol_identifier': F(o, 7, 4), 'code_set': F(o, 3, 0), 'piv': F(o + 1, 7), 'association': F(o + 1, 5, 4),
            'designator_type': F(o + 1, 3, 0), 'designator_length': U(o + 3)}


def designator(name, n, o):
    """layout of a designator of n identifier bytes whose descriptor starts at o"""
    h = designator_header(o)
    d = o + 4
    h.update({
        'vendor': lambda: {'vendor_specific_identifier': RAW(d, d + n)},
        't10': lambda: {'t10_vendor_identification': TEXT(d, d + 8), 'vendor_specific_identifier': RAW(d + 8, d + n)},
        'eui8': lambda: {'ieee_company': U(d, d + 3), 'vendor_specific_extension_identifer': U(d + 3, d + 8)},
        'eui12': lambda: {'ieee_company': U(d, d + 3), 'vendor_specific_extension_identifer': U(d + 3, d + 8),
                          'directory_id': U(d + 8, d + 12)},
        'eui16': lambda: {'identifier_extension': U(d, d + 8), 'ieee_company': U(d + 8, d + 11),
                          'vendor_specific_extension_identifer': U(d + 11, d + 16)},
        'naa2': lambda: {'naa': F(d, 7, 4), 'vendor_specific_identifier_a': UF(d, d + 2, 3, 0), 'ieee_company': U(d + 2, d + 5),
                         'vendor_specific_identifier_b': U(d + 5, d + 8)},
        'naa3': lambda: {'naa': F(d, 7, 4), 'locally_administered_value': UF(d, d + 8, 3, 0)},
        'naa5': lambda: {'naa': F(d, 7, 4), 'ieee_company_id': CAT((d, 3, 0), (d + 1, 7, 0), (d + 2, 7, 0), (d + 3, 7, 4)),
                         'vendor_specific_identifier': UF(d + 3, d + 8, 3, 0)},
        'naa6': lambda: {'naa': F(d, 7, 4), 'ieee_company_id': CAT((d, 3, 0), (d + 1, 7, 0), (d + 2, 7, 0), (d + 3, 7, 4)),
                         'vendor_specific_identifier': UF(d + 3, d + 8, 3, 0),
                         'vendor_specific_identifier_extension': U(d + 8, d + 16)},
        'rtp': lambda: {'relative_target_port_identifier': U(d + 2, d + 4)},
        'tpg': lambda: {'target_port_group': U(d + 2, d + 4)},
        'lug': lambda: {'logical_unit_group': U(d + 2, d + 4)},
        'md5': lambda: {'md5_logical_unit_identifier': RAW(d, d + n)},
        'name': lambda: {'scsi_name_string': RAW(d, d + n)},
        'reserved': lambda: {'desginator': RAW(d, d + n)},
    }[name]())
    return h


# (layout name, designator type, identifier length, first identifier byte or None)
DESIGNATORS = [('vendor', 0, n, None) for n in (1, 4, 8, 20)] + [('t10', 1, n, None) for n in (8, 12, 16, 36)] + \
    [('eui8', 2, 8, None), ('eui12', 2, 12, None), ('eui16', 2, 16, None), ('naa2', 3, 8, 0x2), ('naa3', 3, 8, 0x3),
     ('naa5', 3, 8, 0x5), ('naa6', 3, 16, 0x6), ('rtp', 4, 4, None), ('tpg', 5, 4, None), ('lug', 6, 4, None), ('md5', 7, 16, None),
     ('name', 8, 4, None), ('name', 8, 24, None), ('name', 8, 44, None), ('name', 8, 6, None), ('vendor', 0, 7, None), ('t10', 1, 11, None)] + \
    [('reserved', t, n, None) for t in range(9, 16) for n in (0, 4, 20)]


# ------------------------------------------------------------------------------------------------ SES
def general(o):
    return {'general': [U(o), U(o + 1), U(o + 2)]}


def slot_tail(o):
    return {'app_client_bypassed_a': F(o + 1, 7), 'do_not_remove': F(o + 1, 6), 'encl_bypassed_a': F(o + 1, 5),
            'encl_bypassed_b': F(o + 1, 4), 'ready_insert': F(o + 1, 3), 'rmv': F(o + 1, 2), 'ident': F(o + 1, 1), 'report': F(o + 1, 0),
            'app_client_bypassed_b': F(o + 2, 7), 'fault_sensed': F(o + 2, 6), 'fault_reqstd': F(o + 2, 5), 'device_off': F(o + 2, 4),
            'bypassed_a': F(o + 2, 3), 'bypassed_b': F(o + 2, 2), 'device_bypassed_a': F(o + 2, 1), 'device_bypassed_b': F(o + 2, 0)}


def idf(o, **kw):
    t = {'ident': F(o, 7), 'fail': F(o, 6)}
    t.update(kw)
    return t


ELEMENTS = {
    0x00: general,
    0x01: lambda o: dict(slot_tail(o), slot_address=U(o)),
    0x02: lambda o: {'ident': F(o, 7), 'dc_over_voltage': F(o + 1, 3), 'dc_under_voltage': F(o + 1, 2), 'dc_over_current': F(o + 1, 1),
                     'hot_swap': F(o + 2, 7), 'fail': F(o + 2, 6), 'reqstd_on': F(o + 2, 5), 'off': F(o + 2, 4),
                     'overtmp_fail': F(o + 2, 3), 'temp_warn': F(o + 2, 2), 'ac_fail': F(o + 2, 1), 'dc_fail': F(o + 2, 0)},
    0x03: lambda o: {'ident': F(o, 7), 'fan_speed': UF(o, o + 2, 2, 0), 'hot_swap': F(o + 2, 7), 'fail': F(o + 2, 6),
                     'reqstd_on': F(o + 2, 5), 'off': F(o + 2, 4), 'speed_code': F(o + 2, 2, 0)},
    0x04: lambda o: idf(o, temperature=U(o + 1), ot_fail=F(o + 2, 3), ot_warn=F(o + 2, 2), ut_fail=F(o + 2, 1), ut_warn=F(o + 2, 0)),
    0x05: lambda o: idf(o, door_open=F(o + 2, 1), unlocked=F(o + 2, 0)),
    0x06: lambda o: idf(o, rqst_mute=F(o + 2, 7), muted=F(o + 2, 6), remind=F(o + 2, 4), tui_info=F(o + 2, 3),
                        tui_non_crit=F(o + 2, 2), tui_crit=F(o + 2, 1), tui_unrecov=F(o + 2, 0)),
    0x07: lambda o: idf(o, report=F(o + 1, 0), hot_swap=F(o + 2, 7)),
    0x08: lambda o: idf(o, report=F(o + 1, 0)),
    0x09: lambda o: idf(o, size_mult=F(o, 1, 0), cache_size=U(o + 1, o + 3)),
    0x0a: lambda o: {'invop_type': F(o, 7, 6), 'invop_bytes': U(o + 1, o + 3)},
    0x0b: lambda o: {'battery_status': U(o), 'ac_low': F(o + 1, 7), 'ac_hi': F(o + 1, 6), 'ac_qual': F(o + 1, 5), 'ac_fail': F(o + 1, 4),
                     'dc_fail': F(o + 1, 3), 'ups_fail': F(o + 1, 2), 'warn': F(o + 1, 1), 'intf_fail': F(o + 1, 0),
                     'ident': F(o + 2, 7), 'fail': F(o + 2, 6), 'batt_fail': F(o + 2, 1), 'bpf': F(o + 2, 0)},
    0x0c: lambda o: idf(o, display_mode_status=F(o, 1, 0), display_char_status=U(o + 1, o + 3)),
    0x0d: lambda o: idf(o),
    0x0e: lambda o: {'ident': F(o, 7), 'time_until_power_cycle': F(o + 1, 7, 2), 'failure_indication': F(o + 1, 1),
                     'warn_indication': F(o + 1, 0), 'requested_power_off_duration': F(o + 2, 7, 2), 'failure_requested': F(o + 2, 1),
                     'warn_requested': F(o + 2, 0)},
    0x0f: lambda o: idf(o, report=F(o + 1, 0), disabled=F(o + 2, 4), lol=F(o + 2, 1), xmit_fail=F(o + 2, 0)),
    0x10: lambda o: {'ident': F(o, 7), 'language_code': U(o + 1, o + 3)},
    0x11: lambda o: idf(o, disabled=F(o + 2, 0)),
    0x12: lambda o: idf(o, warn_over=F(o, 3), warn_under=F(o, 2), crit_over=F(o, 1), crit_under=F(o, 0), voltage=S(o + 1, o + 3)),
    0x13: lambda o: idf(o, warn_over=F(o, 3), crit_over=F(o, 1), current=S(o + 1, o + 3)),
    0x14: lambda o: idf(o, report=F(o + 1, 0), enabled=F(o + 2, 0)),
    0x15: lambda o: idf(o, report=F(o + 1, 0), enabled=F(o + 2, 0)),
    0x16: lambda o: idf(o, short_enclosure_status=U(o + 2)),
    0x17: lambda o: dict(slot_tail(o), ok=F(o, 7), rsvd_device=F(o, 6), hot_spare=F(o, 5), cons_chk=F(o, 4), in_crit_array=F(o, 3),
                         in_failed_array=F(o, 2), rebuild_remap=F(o, 1), rr_abort=F(o, 0)),
    0x18: lambda o: idf(o),
    0x19: lambda o: {'ident': F(o, 7), 'connector_type': F(o, 6, 0), 'connector_phys_link': U(o + 1), 'fail': F(o + 2, 6)},
}


def element(t, o):
    """a status element of type t at o"""
    return {'prdfail': F(o, 6), 'disabled': F(o, 5), 'swap': F(o, 4), 'element_status_code': F(o, 3, 0),
            'status_info': ELEMENTS.get(t, general)(o + 1)}


def enclosure_status(types):
    """types: [(element type, number of possible elements)]; returns (layout, size)"""
    o, ds = 8, []
    for t, n in types:
        d = {'overall_element': element(0, o), 'individual_elements': []}
        o += 4
        for _ in range(n):
            d['individual_elements'].append(element(t, o))
            o += 4
        ds.append(d)
    return {'page_code': U(0), 'invop': F(1, 4), 'info': F(1, 3), 'non_crit': F(1, 2), 'crit': F(1, 1), 'unrecov': F(1, 0),
            'page_length': U(2, 4), 'generation_code': U(4, 8), 'status_descriptors': ds}, o


def element_descriptors(lengths):
    """lengths: per type, the descriptor lengths (overall first); returns (layout, {byte: constant}, size)"""
    o, ds, consts = 8, [], {}

    def one(n, o):
        consts[o + 2], consts[o + 3] = n >> 8, n & 255
        return {'descriptor_length': U(o + 2, o + 4), 'descriptor': RAW(o + 4, o + 4 + n)}
    for ls in lengths:
        d = {'overall_element': one(ls[0], o), 'individual_elements': []}
        o += 4 + ls[0]
        for n in ls[1:]:
            d['individual_elements'].append(one(n, o))
            o += 4 + n
        ds.append(d)
    return {'page_code': U(0), 'page_length': U(2, 4), 'generation_code': U(4, 8), 'element_descriptors': ds}, consts, o


def configuration(enclosures, types):
    """enclosures: [(extra vendor bytes, number of type headers)], types: [(element type or None, possible elements or None, text length)]"""
    consts = {1: len(enclosures) - 1}
    o, es, hs, ts = 8, [], [], []
    for extra, nh in enclosures:
        consts[o + 2], consts[o + 3] = nh, 36 + extra
        es.append({'relative_enclosure_services_process_identifier': F(o, 6, 4), 'enclosure_services_processes_num': F(o, 2, 0),
                   'subenclosure_identifier': U(o + 1), 'type_descriptor_headers_num': U(o + 2), 'enclosure_descriptor_length': U(o + 3),
                   'enclosure_logical_identifier': RAW(o + 4, o + 12), 'enclosure_vendor_identification': TEXT(o + 12, o + 20),
                   'product_identification': TEXT(o + 20, o + 36), 'product_revision_level': TEXT(o + 36, o + 40),
                   'vendor_specific_enclosure_information': RAW(o + 40, o + 40 + extra)})
        o += 40 + extra
    for t, n, l in types:
        consts[o + 3] = l
        if t is not None:
            consts[o] = t
        if n is not None:
            consts[o + 1] = n
        hs.append({'element_type': U(o), 'possible_elements_num': U(o + 1), 'subenclosure_identifier': U(o + 2),
                   'type_descriptor_text_length': U(o + 3)})
        o += 4
    for t, n, l in types:
        ts.append(TEXT(o, o + l))
        o += l
    consts[2], consts[3] = (o - 4) >> 8, (o - 4) & 255
    return {'page_code': U(0), 'secondary_subenclosures_num': U(1), 'page_length': U(2, 4), 'generation_code': U(4, 8),
            'enclosure_descriptor_list': es, 'type_descriptor_header_list': hs, 'type_descriptor_text_list': ts}, consts, o


# ------------------------------------------------------------------------------------------------ reservations, ports, LUNs, capacity
PR_HEAD = {'pr_generation': U(0, 4), 'additional_length': U(4, 8)}


def pr_keys(n):
    return dict(PR_HEAD, key_list=[U(8 + 8 * i, 16 + 8 * i) for i in range(n)])


PR_RESERVATION = dict(PR_HEAD, reservation_key=U(8, 16), scope=F(21, 7, 4), pr_type=F(21, 3, 0))
PR_NO_RESERVATION = dict(PR_HEAD, reservation_key=ABSENT, scope=ABSENT, pr_type=ABSENT)
PR_CAPABILITIES = {'length': U(0, 2), 'replace_lost_reservation_capable': F(2, 7), 'compatible_reservation_handling': F(2, 4),
                   'specify_initiator_ports_capable': F(2, 3), 'all_target_ports_capable': F(2, 2),
                   'persist_through_power_lost_capable': F(2, 0), 'type_mask_valid': F(3, 7), 'allow_commands': F(3, 6, 4),
                   'persist_through_power_lost_activates': F(3, 0), 'write_exclusive_all_registrants': F(4, 7),
                   'exclusive_access_registrants_only': F(4, 6), 'write_exclusive_registrants_only': F(4, 5), 'exclusive_access': F(4, 3),
                   'write_exclusive': F(4, 1), 'exclusive_access_all_registrants': F(5, 0)}


def pr_full_status(lengths):
    """lengths: ADDITIONAL DESCRIPTOR LENGTH (transport id) of each descriptor"""
    o, ds, consts = 8, [], {}
    for n in lengths:
        for i, v in enumerate([n >> 24, (n >> 16) & 255, (n >> 8) & 255, n & 255]):
            consts[o + 20 + i] = v
        ds.append({'reservation_key': U(o, o + 8), 'all_target_ports': F(o + 12, 1), 'reservation_holder': F(o + 12, 0),
                   'scope': F(o + 13, 7, 4), 'pr_type': F(o + 13, 3, 0), 'relative_target_port_identifier': U(o + 18, o + 20),
                   'additional_length': U(o + 20, o + 24), 'transport_id': TRANSPORT(o + 24)})
        o += 24 + n
    return dict(PR_HEAD, full_status_descriptors=ds), consts, o


def TRANSPORT(o):
    return {'format_code': F(o, 7, 6), 'protocol_identifier': F(o, 3, 0)}


def rtpg(counts, extended):
    o = 8 if extended else 4
    ds, consts = [], {}
    for n in counts:
        consts[o + 7] = n
        ds.append({'pref': F(o, 7), 'asymetric_access_state': F(o, 3, 0), 't_sup': F(o + 1, 7), 'o_sup': F(o + 1, 6),
                   'lbd_sup': F(o + 1, 4), 'u_sup': F(o + 1, 3), 's_sup': F(o + 1, 2), 'an_sup': F(o + 1, 1), 'ao_sup': F(o + 1, 0),
                   'target_port_group': U(o + 2, o + 4), 'status_code': U(o + 5), 'target_port_count': U(o + 7),
                   'target_port_list': [{'relative_target_port_identifier': U(o + 8 + 4 * i + 2, o + 8 + 4 * i + 4)} for i in range(n)]})
        o += 8 + 4 * n
    t = {'data_length': U(0, 4), 'descriptor_list': ds}
    if extended:
        t['format_type'] = F(4, 6, 4)
    return t, consts, o


CAPACITY10 = {'last_logical_block_address': U(0, 4), 'block_length_in_bytes': U(4, 8)}
CAPACITY16 = {'last_logical_block_address': U(0, 8), 'block_length_in_bytes': U(8, 12), 'p_type': F(12, 3, 1), 'prot_en': F(12, 0),
              'p_i_exponent': F(13, 7, 4), 'logical_blocks_per_physical_block': F(13, 3, 0), 'tpe': F(14, 7), 'troz': F(14, 6),
              'lowest_aligned_lba_msb': F(14, 5, 0), 'lowest_aligned_lba_lsb': U(15)}


def copy_parameters(n):
    return {'available_data': U(0, 4), 'snlid': F(4, 0), 'max_cscd_descriptor_count': U(8, 10), 'max_segment_descriptor_count': U(10, 12),
            'max_descriptor_list_length': U(12, 16), 'max_segment_length': U(16, 20), 'max_inline_data_length': U(20, 24),
            'held_data_limit': U(24, 28), 'max_stream_device_transfer_size': U(28, 32), 'total_concurrent_copies': U(34, 36),
            'max_concurrent_copies': U(36), 'data_segment_granularity': U(37), 'inline_data_granularity': U(38),
            'held_data_granularity': U(39), 'implemented_descriptor_list_length': U(43),
            'implemented_descriptor_list': [U(44 + i) for i in range(n)]}


# ------------------------------------------------------------------------------------------------ sense data
SENSE_FIXED = {'response_code': {'valid': F(0, 7), 'code': F(0, 6, 0)}, 'filemark': F(2, 7), 'eom': F(2, 6), 'ili': F(2, 5),
               'information': U(3, 7), 'additional_sense_length': U(7), 'command_specific_information': U(8, 12),
               'field_replaceable_unit_code': U(14), 'sksv': F(15, 7)}
SENSE_DESCRIPTOR = {'response_code': {'valid': F(0, 7), 'code': F(0, 6, 0)}}
SENSE_KEYS = ['NO_SENSE', 'RECOVERED_ERROR', 'NOT_READY', 'MEDIUM_ERROR', 'HARDWARE_ERROR', 'ILLEGAL_REQUEST', 'UNIT_ATTENTION',
              'DATA_PROTECT', 'BLANK_CHECK', 'VENDOR_SPECIFIC', 'COPY_ABORTED', 'ABORTED_COMMAND', 'RESERVED', 'VOLUME_OVERFLOW',
              'MISCOMPARE', 'COMPLETED']
