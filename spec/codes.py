"""names of codes (SPC-4, SBC-3, SES-3; SAM status; Linux sg_err.h; AIX scsi_buf.h), frozen"""
# table -> (module, {code: name})
PAGES = {
    'SCSI_PERIPHERAL_DEVICE_TYPE': ('infi.asi.cdb.inquiry.vpd_pages', {
        0x00: 'disk',
        0x01: 'tape',
        0x02: 'printer',
        0x03: 'processor',
        0x04: 'write once optical disk',
        0x05: 'cd/dvd',
        0x06: 'scanner',
        0x07: 'optical memory device',
        0x08: 'medium changer',
        0x09: 'communications',
        0x0a: 'graphics [0xa]',
        0x0b: 'graphics [0xb]',
        0x0c: 'storage array controller',
        0x0d: 'enclosure services device',
        0x0e: 'simplified direct access device',
        0x0f: 'optical card reader/writer device',
        0x10: 'bridge controller commands',
        0x11: 'object based storage',
        0x12: 'automation/driver interface',
        0x13: 'security manager device',
        0x14: 'zoned block commands',
        0x15: '0x15',
        0x16: '0x16',
        0x17: '0x17',
        0x18: '0x18',
        0x19: '0x19',
        0x1a: '0x1a',
        0x1b: '0x1b',
        0x1c: '0x1c',
        0x1d: '0x1d',
        0x1e: 'well known logical unit',
        0x1f: 'no physical device on this lu',
    }),
    'SCSI_VERSION_NAME': ('infi.asi.cdb.inquiry.vpd_pages', {
        0x00: 'no conformance claimed',
        0x01: 'SCSI-1',
        0x02: 'SCSI-2',
        0x03: 'SPC',
        0x04: 'SPC-2',
        0x05: 'SPC-3',
        0x06: 'SPC-4',
        0x07: 'SPC-5',
    }),
    'SCSI_VPD_NAME': ('infi.asi.cdb.inquiry.vpd_pages', {
        0x00: 'Supported VPD pages',
        0x80: 'Unit serial number',
        0x81: 'Implemented operating definitions (obsolete)',
        0x82: 'ASCII implemented operating definition (obsolete)',
        0x83: 'Device identification',
        0x84: 'Software interface identification',
        0x85: 'Management network addresses',
        0x86: 'Extended INQUIRY data',
        0x87: 'Mode page policy',
        0x88: 'SCSI ports',
        0x89: 'ATA information',
        0x8a: 'Power condition',
        0x8b: 'Device constituents',
        0x8c: 'CFA profile information',
        0x8d: 'Power consumption',
        0x8f: 'Third party copy',
        0x90: 'Protocol-specific logical unit information',
        0x91: 'Protocol-specific port information',
        0x92: 'SCSI Feature sets',
        0xb0: {0: 'Block limits (sbc2)', 1: 'Sequential access device capabilities (ssc3)', 17: 'OSD information (osd)'},
        0xb1: {0: 'Block device characteristics (sbc3)', 17: 'Security token (osd)', 13: 'Enclosure services device characteristics (ses4)'},
        0xb2: {0: 'Logical block provisioning (sbc3)', 1: 'TapeAlert supported flags (ssc3)'},
        0xb3: {0: 'Referrals (sbc3)'},
        0xc0: 'vendor: Firmware numbers (seagate); Unit path report (EMC)',
        0xc1: 'vendor: Date code (seagate)',
        0xc2: 'vendor: Jumper settings (seagate); Software version (RDAC)',
        0xc3: 'vendor: Device behavior (seagate)',
        0xc9: 'Volume Access Control (RDAC)',
    }),
    'SCSI_CODE_SETS': ('infi.asi.cdb.inquiry.vpd_pages', {
        0x01: 'Binary',
        0x02: 'ASCII',
        0x03: 'UTF8',
    }),
    'SCSI_DESIGNATOR_ASSOCIATIONS': ('infi.asi.cdb.inquiry.vpd_pages', {
        0x00: 'Addressed logical unit',
        0x01: 'Target port',
        0x02: 'Target device that contains addressed lu',
        0x03: 'Reserved [0x3]',
    }),
    'ELEMENT_TYPE_CODES': ('infi.asi.cdb.diagnostic.ses_pages.configuration', {
        0x00: 'Unspecified',
        0x01: 'Device Slot',
        0x02: 'Power Supply',
        0x03: 'Cooling',
        0x04: 'Temperature Sensor',
        0x05: 'Door',
        0x06: 'Audible Alarm',
        0x07: 'Enclosure Services Controller Electronics',
        0x08: 'SCC Controller Electronics',
        0x09: 'Nonvolatile Cache',
        0x0a: 'Invalid Operation Reason',
        0x0b: 'Uninterruptible Power Supply',
        0x0c: 'Display',
        0x0d: 'Key Pad Entry',
        0x0e: 'Enclosure',
        0x0f: 'SCSI Port/Transceiver',
        0x10: 'Language',
        0x11: 'Communication Port',
        0x12: 'Voltage Sensor',
        0x13: 'Current Sensor',
        0x14: 'SCSI Target Port',
        0x15: 'SCSI Initiator Port',
        0x16: 'Simple Subenclosure',
        0x17: 'Array Device Slot',
        0x18: 'SAS Expander',
        0x19: 'SAS Connector',
        0x9e: 'Sanmina Specific Data',
    }),
    'FAN_SPEED_CODE': ('infi.asi.cdb.diagnostic.ses_pages.enclosure_status', {
        0x00: 'Cooling mechanism is stopped',
        0x01: 'Cooling mechanism is at its lowest speed',
        0x02: 'Cooling mechanism is at its second lowest speed',
        0x03: 'Cooling mechanism is at its third lowest speed',
        0x04: 'Cooling mechanism is at its intermediate speed',
        0x05: 'Cooling mechanism is at its third highest speed',
        0x06: 'Cooling mechanism is at its second highest speed',
        0x07: 'Cooling mechanism is at its highest speed',
    }),
    'ELEMENT_STATUS_CODE': ('infi.asi.cdb.diagnostic.ses_pages.enclosure_status', {
        0x00: 'Unsupported',
        0x01: 'OK',
        0x02: 'Critical',
        0x03: 'Noncritical',
        0x04: 'Unrecoverable',
        0x05: 'Not Installed',
        0x06: 'Unknown',
        0x07: 'Not Available',
        0x08: 'No Access',
    }),
    'SCSI_DESIGNATOR_TYPES': ('infi.asi.cdb.inquiry.vpd_pages', {
        0x00: 'vendor specific [0x0]',
        0x01: 'T10 vendor identification',
        0x02: 'EUI-64 based',
        0x03: 'NAA',
        0x04: 'Relative target port',
        0x05: 'Target port group',
        0x06: 'Logical unit group',
        0x07: 'MD5 logical unit identifier',
        0x08: 'SCSI name string',
        0x09: 'Protocol specific port identifier',
        0x0a: 'UUID identifier',
    }),
}
STATUS = {
    'SCSI_STATUS_CODES': {
        0x00: 'SCSI_STATUS_GOOD',
        0x02: 'SCSI_STATUS_CHECK_CONDITION',
        0x04: 'SCSI_STATUS_CONDITION_MET',
        0x08: 'SCSI_STATUS_BUSY',
        0x18: 'SCSI_STATUS_RESERVATION_CONFLICT',
        0x28: 'SCSI_STATUS_TASK_SET_FULL',
        0x30: 'SCSI_STATUS_ACA_ACTIVE',
        0x40: 'SCSI_STATUS_TASK_ABORTED',
    },
    'HOST_STATUS_CODES': {
        0x00: 'SG_ERR_DID_OK',
        0x01: 'SG_ERR_DID_NO_CONNECT',
        0x02: 'SG_ERR_DID_BUS_BUSY',
        0x03: 'SG_ERR_DID_TIME_OUT',
        0x04: 'SG_ERR_DID_BAD_TARGET',
        0x05: 'SG_ERR_DID_ABORT',
        0x06: 'SG_ERR_DID_PARITY',
        0x07: 'SG_ERR_DID_ERROR',
        0x08: 'SG_ERR_DID_RESET',
        0x09: 'SG_ERR_DID_BAD_INTR',
        0x0a: 'SG_ERR_DID_PASSTHROUGH',
        0x0b: 'SG_ERR_DID_SOFT_ERROR',
    },
    'DRIVER_STATUS_CODES': {
        0x00: 'SG_ERR_DRIVER_OK',
        0x01: 'SG_ERR_DRIVER_BUSY',
        0x02: 'SG_ERR_DRIVER_SOFT',
        0x03: 'SG_ERR_DRIVER_MEDIA',
        0x04: 'SG_ERR_DRIVER_ERROR',
        0x05: 'SG_ERR_DRIVER_INVALID',
        0x06: 'SG_ERR_DRIVER_TIMEOUT',
        0x07: 'SG_ERR_DRIVER_HARD',
        0x08: 'SG_ERR_DRIVER_SENSE',
        0x10: 'SG_ERR_SUGGEST_RETRY',
        0x20: 'SG_ERR_SUGGEST_ABORT',
        0x30: 'SG_ERR_SUGGEST_REMAP',
        0x40: 'SG_ERR_SUGGEST_DIE',
        0x80: 'SG_ERR_SUGGEST_SENSE',
    },
    'ADAPTER_STATUS_CODES': {
        0x01: 'SCSI_HOST_IO_BUS_ERR',
        0x02: 'SCSI_TRANSPORT_FAULT',
        0x03: 'SCSI_CMD_TIMEOUT',
        0x04: 'SCSI_NO_DEVICE_RESPONSE',
        0x05: 'SCSI_ADAPTER_HDW_FAILURE',
        0x06: 'SCSI_ADAPTER_SFW_FAILURE',
        0x07: 'SCSI_WW_NAME_CHANGE',
        0x08: 'SCSI_FUSE_OR_TERMINAL_PWR',
        0x09: 'SCSI_TRANSPORT_RESET',
        0x0a: 'SCSI_TRANSPORT_BUSY',
        0x0b: 'SCSI_TRANSPORT_DEAD',
        0x0c: 'SCSI_VERIFY_DEVICE',
        0x0d: 'SCSI_TRANSPORT_MIGRATED',
        0x0e: 'SCSI_ERROR_NO_RETRY',
        0x0f: 'SCSI_ERROR_DELAY_LOG',
    },
    'EINVAL_CODES': {
        0x01: 'SC_PASSTHRU_INV_VERS',
        0x09: 'SC_PASSTHRU_INV_Q_TAG_MSG',
        0x0a: 'SC_PASSTHRU_INV_FLAGS',
        0x0b: 'SC_PASSTHRU_INV_DEVFLAGS',
        0x0c: 'SC_PASSTHRU_INV_Q_FLAGS',
        0x0d: 'SC_PASSTHRU_INV_CDB_LEN',
        0x0f: 'SC_PASSTHRU_INV_AS_LEN',
        0x10: 'SC_PASSTHRU_INV_CDB',
        0x11: 'SC_PASSTHRU_INV_TO',
        0x12: 'SC_PASSTHRU_INV_D_LEN',
        0x13: 'SC_PASSTHRU_INV_SID',
        0x14: 'SC_PASSTHRU_INV_LUN',
        0x15: 'SC_PASSTHRU_INV_BUFF',
        0x16: 'SC_PASSTHRU_INV_AS_BUFF',
        0x17: 'SC_PASSTHRU_INV_VAR_CDB_LEN',
        0x18: 'SC_PASSTHRU_INV_VAR_CDB',
    },
}
