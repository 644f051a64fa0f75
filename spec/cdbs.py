"""Frozen T10 layouts of the command descriptor blocks (SPC-4, SBC-3, SES-3), reviewed by hand.

field: (source, last byte, lowest bit in it, width).  The field is big-endian: it ends at that bit and
extends to more significant bits, then to lower-numbered bytes.  Every bit not listed is zero.
source: an int (constant) or the name of a quantity of the caller.
"""
R = 'infi.asi.cdb.'


def cdb(length, opcode, *fields):
    return {'length': length, 'fields': ((opcode, 0, 0, 8),) + fields}


# name: module, class, constructor parameters [(name, width)], kind, cdb
READS = {
    'READ(6)': (R + 'read', 'Read6Command', 21, 8, cdb(6, 0x08, ('lba', 3, 0, 21), ('blocks', 4, 0, 8)), {}),
    'READ(10)': (R + 'read', 'Read10Command', 32, 16, cdb(10, 0x28, ('lba', 5, 0, 32), ('blocks', 8, 0, 16)),
                 {'fua_nv': (1, 1, 1), 'fua': (1, 3, 1), 'dpo': (1, 4, 1), 'rdprotect': (1, 5, 3), 'group_number': (6, 0, 5)}),
    'READ(12)': (R + 'read', 'Read12Command', 32, 32, cdb(12, 0xA8, ('lba', 5, 0, 32), ('blocks', 9, 0, 32)),
                 {'fua': (1, 3, 1), 'dpo': (1, 4, 1)}),
    'READ(16)': (R + 'read', 'Read16Command', 64, 32, cdb(16, 0x88, ('lba', 9, 0, 64), ('blocks', 13, 0, 32)),
                 {'fua_nv': (1, 1, 1), 'fua': (1, 3, 1), 'dpo': (1, 4, 1), 'group_number': (14, 0, 5)}),
}
WRITES = {
    'WRITE(6)': (R + 'write', 'Write6Command', 21, (1, 256), cdb(6, 0x0A, ('lba', 3, 0, 21), ('blocks', 4, 0, 8)), {}),
    'WRITE(10)': (R + 'write', 'Write10Command', 32, (0, 2 ** 16 - 1),
                  cdb(10, 0x2A, ('lba', 5, 0, 32), ('blocks', 8, 0, 16)),
                  {'fua_nv': (1, 1, 1), 'fua': (1, 3, 1), 'dpo': (1, 4, 1), 'wrprotect': (1, 5, 3), 'group_number': (6, 0, 5)}),
    'WRITE(12)': (R + 'write', 'Write12Command', 32, (0, 2 ** 32 - 1),
                  cdb(12, 0xAA, ('lba', 5, 0, 32), ('blocks', 9, 0, 32)),
                  {'fua_nv': (1, 1, 1), 'fua': (1, 3, 1), 'dpo': (1, 4, 1), 'wrprotect': (1, 5, 3), 'group_number': (10, 0, 5)}),
    'WRITE(16)': (R + 'write', 'Write16Command', 64, (0, 2 ** 32 - 1),
                  cdb(16, 0x8A, ('lba', 9, 0, 64), ('blocks', 13, 0, 32)),
                  {'fua_nv': (1, 1, 1), 'fua': (1, 3, 1), 'dpo': (1, 4, 1), 'wrprotect': (1, 5, 3), 'group_number': (14, 0, 5)}),
}
WRITE_SAME = {
    'WRITE SAME(10)': (R + 'write_same', 'WriteSame10Command', 32, 16,
                       cdb(10, 0x41, ('lba', 5, 0, 32), ('blocks', 8, 0, 16)),
                       {'wrprotect': (1, 5, 3), 'lbdata': (1, 1, 1), 'pbdata': (1, 2, 1), 'group_number': (6, 0, 5)}),
    'WRITE SAME(16)': (R + 'write_same', 'WriteSame16Command', 64, 32,
                       cdb(16, 0x93, ('lba', 9, 0, 64), ('blocks', 13, 0, 32)),
                       {'wrprotect': (1, 5, 3), 'lbdata': (1, 1, 1), 'pbdata': (1, 2, 1), 'unmap': (1, 3, 1),
                        'group_number': (14, 0, 5)}),
}
COMPARE_AND_WRITE = (R + 'compare_and_write', 'CompareAndWriteCommand', 64, 8,
                     cdb(16, 0x89, ('lba', 9, 0, 64), ('blocks', 13, 0, 8)),
                     {'fua_nv': (1, 1, 1), 'fua': (1, 3, 1), 'dpo': (1, 4, 1), 'wrprotect': (1, 5, 3), 'group_number': (14, 0, 5)})
UNMAP = (R + 'unmap', 'UnmapCommand', cdb(10, 0x42, ('length', 8, 0, 16)), {'GROUP_NUMBER': (6, 0, 5)})

# management commands: module, class, [(parameter, width)], cdb, allocation ('name' or constant), extra attributes
V = R + 'inquiry.vpd_pages.'
S = R + 'diagnostic.ses_pages.'


def vpd(page):
    return cdb(6, 0x12, (1, 1, 0, 1), (page, 2, 0, 8), ('alloc', 4, 0, 16))


def ses(page):
    return cdb(6, 0x1C, (1, 1, 0, 1), (page, 2, 0, 8), ('alloc', 4, 0, 16))


MANAGEMENT = {
    'TEST UNIT READY': (R + 'tur', 'TestUnitReadyCommand', [], cdb(6, 0x00), 0),
    'INQUIRY (standard)': (R + 'inquiry.standard', 'StandardInquiryCommand', [('allocation_length', 16)],
                           cdb(6, 0x12, ('allocation_length', 4, 0, 16)), 'allocation_length'),
    'INQUIRY (standard, default)': (R + 'inquiry.standard', 'StandardInquiryCommand', [],
                                    cdb(6, 0x12, ('alloc', 4, 0, 16)), ('min', 36)),
    'INQUIRY (standard, evpd)': (R + 'inquiry.standard', 'StandardInquiryCommand',
                                 [('page_code', 8), ('evpd', 1), ('allocation_length', 16)],
                                 cdb(6, 0x12, ('evpd', 1, 0, 1), ('page_code', 2, 0, 8), ('allocation_length', 4, 0, 16)),
                                 'allocation_length'),
    'VPD 00h': (V + 'supported_pages', 'SupportedVPDPagesCommand', [], vpd(0x00), ('min', 4)),
    'VPD 80h': (V + 'unit_serial_number', 'UnitSerialNumberVPDPageCommand', [], vpd(0x80), ('min', 4)),
    'VPD 83h': (V + 'device_identification', 'DeviceIdentificationVPDPageCommand', [], vpd(0x83), ('min', 4)),
    'VPD 89h': (V + 'ata_information', 'AtaInformationVPDPageCommand', [], vpd(0x89), ('min', 572)),
    'VPD B0h': (V + 'block_limits', 'BlockLimitsPageCommand', [], vpd(0xB0), ('min', 44)),
    'VPD B2h': (V + 'logical_block_provisioning', 'LogicalBlockProvisioningPageCommand', [], vpd(0xB2), ('min', 8)),
    'VPD C0h': (V + 'veritas', 'VeritasVPDPageCommand', [], vpd(0xC0), ('min', 6)),
    'READ CAPACITY(10)': (R + 'read_capacity', 'ReadCapacity10Command', [('logical_block_address', 32), ('pmi', 1)],
                          cdb(10, 0x25, ('logical_block_address', 5, 0, 32), ('pmi', 8, 0, 1)), ('min', 8)),
    'READ CAPACITY(16)': (R + 'read_capacity', 'ReadCapacity16Command', [('logical_block_address', 64), ('pmi', 1)],
                          cdb(16, 0x9E, (0x10, 1, 0, 5), ('logical_block_address', 9, 0, 64), ('alloc', 13, 0, 32),
                              ('pmi', 14, 0, 1)), ('min', 32)),
    'REPORT LUNS': (R + 'report_luns', 'ReportLunsCommand', [('select_report', 8), ('allocation_length', 32)],
                    cdb(12, 0xA0, ('select_report', 2, 0, 8), ('allocation_length', 9, 0, 32)), 'allocation_length'),
    'REPORT LUNS (default)': (R + 'report_luns', 'ReportLunsCommand', [], cdb(12, 0xA0, ('alloc', 9, 0, 32)), ('min', 16)),
    'REPORT TARGET PORT GROUPS': (R + 'rtpg', 'RTPGCommand', [('parameter_data_format', 1), ('allocation_length', 32)],
                                  cdb(12, 0xA3, (0x0A, 1, 0, 5), ('parameter_data_format', 1, 5, 3),
                                      ('allocation_length', 9, 0, 32)), 'allocation_length'),
    'LOG SENSE': (R + 'log_sense', 'LogSenseCommand', [('page_code', 6), ('subpage_code', 8), ('allocation_length', 16)],
                  cdb(10, 0x4D, ('page_code', 2, 0, 6), ('subpage_code', 3, 0, 8), ('allocation_length', 8, 0, 16)),
                  'allocation_length'),
    'PERSISTENT RESERVE IN': (R + 'persist.input', 'PersistentReserveInCommand',
                              [('service_action', (0, 3)), ('allocation_length', (8, 65535))],
                              cdb(10, 0x5E, ('service_action', 1, 0, 5), ('allocation_length', 8, 0, 16)),
                              'allocation_length'),
    'RECEIVE COPY OPERATING PARAMETERS': (R + 'receive_copy_operating_parameters', 'ReceiveCopyOperatingParametersCommand',
                                          [('allocation_length', 32), ('control', (0, 0))],
                                          cdb(16, 0x84, (3, 1, 0, 5), ('allocation_length', 13, 0, 32)),
                                          'allocation_length'),
    'SES page 00h': (S + 'supported_pages', 'SupportedDiagnosticPagesCommand', [], ses(0x00), ('min', 4)),
    'SES page 01h': (S + 'configuration', 'ConfigurationDiagnosticPagesCommand', [], ses(0x01), ('min', 252)),
    'SES page 02h': (S + 'enclosure_status', 'EnclosureStatusDiagnosticPagesCommand', [('conf_page', None)], ses(0x02), ('min', 252)),
    'SES page 07h': (S + 'element_descriptor', 'ElementDescriptorDiagnosticPagesCommand', [('conf_page', None)], ses(0x07), ('min', 252)),
    'SES page 80h': (S + 'vendor_0x80', 'Vendor0x80DiagnosticPagesCommand', [], ses(0x80), ('min', 4)),
    'RESERVE(6)': (R + 'reserve', 'Reserve6Command', [], cdb(6, 0x16), None),
    'RELEASE(6)': (R + 'release', 'Release6Command', [], cdb(6, 0x17), None),
}
# commands made by a factory taking a page code
FACTORIES = {
    'VPD (unknown page)': (V + 'unknown', 'UnknownVPDPageCommand', vpd('page'), ('min', 4)),
    'SES (unknown page)': (S + 'unknown', 'UnknownDiagnosticPageCommand', ses('page'), ('min', 4)),
}
