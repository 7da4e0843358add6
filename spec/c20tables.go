package zzverif

import "github.com/libsv/libsv/script"

// opName: reference names and protocol values of the opcodes.
type opName struct {
	name string
	b    byte
}

var opNames = [...]opName{
	{"OP_0", 0x00},
	{"OP_ZERO", 0x00},
	{"OP_FALSE", 0x00},
	{"OP_DATA_1", 0x01},
	{"OP_DATA_2", 0x02},
	{"OP_DATA_3", 0x03},
	{"OP_DATA_4", 0x04},
	{"OP_DATA_5", 0x05},
	{"OP_DATA_6", 0x06},
	{"OP_DATA_7", 0x07},
	{"OP_DATA_8", 0x08},
	{"OP_DATA_9", 0x09},
	{"OP_DATA_10", 0x0a},
	{"OP_DATA_11", 0x0b},
	{"OP_DATA_12", 0x0c},
	{"OP_DATA_13", 0x0d},
	{"OP_DATA_14", 0x0e},
	{"OP_DATA_15", 0x0f},
	{"OP_DATA_16", 0x10},
	{"OP_DATA_17", 0x11},
	{"OP_DATA_18", 0x12},
	{"OP_DATA_19", 0x13},
	{"OP_DATA_20", 0x14},
	{"OP_DATA_21", 0x15},
	{"OP_DATA_22", 0x16},
	{"OP_DATA_23", 0x17},
	{"OP_DATA_24", 0x18},
	{"OP_DATA_25", 0x19},
	{"OP_DATA_26", 0x1a},
	{"OP_DATA_27", 0x1b},
	{"OP_DATA_28", 0x1c},
	{"OP_DATA_29", 0x1d},
	{"OP_DATA_30", 0x1e},
	{"OP_DATA_31", 0x1f},
	{"OP_DATA_32", 0x20},
	{"OP_DATA_33", 0x21},
	{"OP_DATA_34", 0x22},
	{"OP_DATA_35", 0x23},
	{"OP_DATA_36", 0x24},
	{"OP_DATA_37", 0x25},
	{"OP_DATA_38", 0x26},
	{"OP_DATA_39", 0x27},
	{"OP_DATA_40", 0x28},
	{"OP_DATA_41", 0x29},
	{"OP_DATA_42", 0x2a},
	{"OP_DATA_43", 0x2b},
	{"OP_DATA_44", 0x2c},
	{"OP_DATA_45", 0x2d},
	{"OP_DATA_46", 0x2e},
	{"OP_DATA_47", 0x2f},
	{"OP_DATA_48", 0x30},
	{"OP_DATA_49", 0x31},
	{"OP_DATA_50", 0x32},
	{"OP_DATA_51", 0x33},
	{"OP_DATA_52", 0x34},
	{"OP_DATA_53", 0x35},
	{"OP_DATA_54", 0x36},
	{"OP_DATA_55", 0x37},
	{"OP_DATA_56", 0x38},
	{"OP_DATA_57", 0x39},
	{"OP_DATA_58", 0x3a},
	{"OP_DATA_59", 0x3b},
	{"OP_DATA_60", 0x3c},
	{"OP_DATA_61", 0x3d},
	{"OP_DATA_62", 0x3e},
	{"OP_DATA_63", 0x3f},
	{"OP_DATA_64", 0x40},
	{"OP_DATA_65", 0x41},
	{"OP_DATA_66", 0x42},
	{"OP_DATA_67", 0x43},
	{"OP_DATA_68", 0x44},
	{"OP_DATA_69", 0x45},
	{"OP_DATA_70", 0x46},
	{"OP_DATA_71", 0x47},
	{"OP_DATA_72", 0x48},
	{"OP_DATA_73", 0x49},
	{"OP_DATA_74", 0x4a},
	{"OP_DATA_75", 0x4b},
	{"OP_PUSHDATA1", 0x4c},
	{"OP_PUSHDATA2", 0x4d},
	{"OP_PUSHDATA4", 0x4e},
	{"OP_1NEGATE", 0x4f},
	{"OP_RESERVED", 0x50},
	{"OP_BASE", 0x50},
	{"OP_1", 0x51},
	{"OP_ONE", 0x51},
	{"OP_TRUE", 0x51},
	{"OP_2", 0x52},
	{"OP_3", 0x53},
	{"OP_4", 0x54},
	{"OP_5", 0x55},
	{"OP_6", 0x56},
	{"OP_7", 0x57},
	{"OP_8", 0x58},
	{"OP_9", 0x59},
	{"OP_10", 0x5a},
	{"OP_11", 0x5b},
	{"OP_12", 0x5c},
	{"OP_13", 0x5d},
	{"OP_14", 0x5e},
	{"OP_15", 0x5f},
	{"OP_16", 0x60},
	{"OP_NOP", 0x61},
	{"OP_VER", 0x62},
	{"OP_IF", 0x63},
	{"OP_NOTIF", 0x64},
	{"OP_VERIF", 0x65},
	{"OP_VERNOTIF", 0x66},
	{"OP_ELSE", 0x67},
	{"OP_ENDIF", 0x68},
	{"OP_VERIFY", 0x69},
	{"OP_RETURN", 0x6a},
	{"OP_TOALTSTACK", 0x6b},
	{"OP_FROMALTSTACK", 0x6c},
	{"OP_2DROP", 0x6d},
	{"OP_2DUP", 0x6e},
	{"OP_3DUP", 0x6f},
	{"OP_2OVER", 0x70},
	{"OP_2ROT", 0x71},
	{"OP_2SWAP", 0x72},
	{"OP_IFDUP", 0x73},
	{"OP_DEPTH", 0x74},
	{"OP_DROP", 0x75},
	{"OP_DUP", 0x76},
	{"OP_NIP", 0x77},
	{"OP_OVER", 0x78},
	{"OP_PICK", 0x79},
	{"OP_ROLL", 0x7a},
	{"OP_ROT", 0x7b},
	{"OP_SWAP", 0x7c},
	{"OP_TUCK", 0x7d},
	{"OP_CAT", 0x7e},
	{"OP_SPLIT", 0x7f},
	{"OP_NUM2BIN", 0x80},
	{"OP_BIN2NUM", 0x81},
	{"OP_SIZE", 0x82},
	{"OP_INVERT", 0x83},
	{"OP_AND", 0x84},
	{"OP_OR", 0x85},
	{"OP_XOR", 0x86},
	{"OP_EQUAL", 0x87},
	{"OP_EQUALVERIFY", 0x88},
	{"OP_RESERVED1", 0x89},
	{"OP_RESERVED2", 0x8a},
	{"OP_1ADD", 0x8b},
	{"OP_1SUB", 0x8c},
	{"OP_2MUL", 0x8d},
	{"OP_2DIV", 0x8e},
	{"OP_NEGATE", 0x8f},
	{"OP_ABS", 0x90},
	{"OP_NOT", 0x91},
	{"OP_0NOTEQUAL", 0x92},
	{"OP_ADD", 0x93},
	{"OP_SUB", 0x94},
	{"OP_MUL", 0x95},
	{"OP_DIV", 0x96},
	{"OP_MOD", 0x97},
	{"OP_LSHIFT", 0x98},
	{"OP_RSHIFT", 0x99},
	{"OP_BOOLAND", 0x9a},
	{"OP_BOOLOR", 0x9b},
	{"OP_NUMEQUAL", 0x9c},
	{"OP_NUMEQUALVERIFY", 0x9d},
	{"OP_NUMNOTEQUAL", 0x9e},
	{"OP_LESSTHAN", 0x9f},
	{"OP_GREATERTHAN", 0xa0},
	{"OP_LESSTHANOREQUAL", 0xa1},
	{"OP_GREATERTHANOREQUAL", 0xa2},
	{"OP_MIN", 0xa3},
	{"OP_MAX", 0xa4},
	{"OP_WITHIN", 0xa5},
	{"OP_RIPEMD160", 0xa6},
	{"OP_SHA1", 0xa7},
	{"OP_SHA256", 0xa8},
	{"OP_HASH160", 0xa9},
	{"OP_HASH256", 0xaa},
	{"OP_CODESEPARATOR", 0xab},
	{"OP_CHECKSIG", 0xac},
	{"OP_CHECKSIGVERIFY", 0xad},
	{"OP_CHECKMULTISIG", 0xae},
	{"OP_CHECKMULTISIGVERIFY", 0xaf},
	{"OP_NOP1", 0xb0},
	{"OP_NOP2", 0xb1},
	{"OP_NOP3", 0xb2},
	{"OP_NOP4", 0xb3},
	{"OP_NOP5", 0xb4},
	{"OP_NOP6", 0xb5},
	{"OP_NOP7", 0xb6},
	{"OP_NOP8", 0xb7},
	{"OP_NOP9", 0xb8},
	{"OP_NOP10", 0xb9},
	{"OP_UNKNOWN186", 0xba},
	{"OP_UNKNOWN187", 0xbb},
	{"OP_UNKNOWN188", 0xbc},
	{"OP_UNKNOWN189", 0xbd},
	{"OP_UNKNOWN190", 0xbe},
	{"OP_UNKNOWN191", 0xbf},
	{"OP_UNKNOWN192", 0xc0},
	{"OP_UNKNOWN193", 0xc1},
	{"OP_UNKNOWN194", 0xc2},
	{"OP_UNKNOWN195", 0xc3},
	{"OP_UNKNOWN196", 0xc4},
	{"OP_UNKNOWN197", 0xc5},
	{"OP_UNKNOWN198", 0xc6},
	{"OP_UNKNOWN199", 0xc7},
	{"OP_UNKNOWN200", 0xc8},
	{"OP_UNKNOWN201", 0xc9},
	{"OP_UNKNOWN202", 0xca},
	{"OP_UNKNOWN203", 0xcb},
	{"OP_UNKNOWN204", 0xcc},
	{"OP_UNKNOWN205", 0xcd},
	{"OP_UNKNOWN206", 0xce},
	{"OP_UNKNOWN207", 0xcf},
	{"OP_UNKNOWN208", 0xd0},
	{"OP_UNKNOWN209", 0xd1},
	{"OP_UNKNOWN210", 0xd2},
	{"OP_UNKNOWN211", 0xd3},
	{"OP_UNKNOWN212", 0xd4},
	{"OP_UNKNOWN213", 0xd5},
	{"OP_UNKNOWN214", 0xd6},
	{"OP_UNKNOWN215", 0xd7},
	{"OP_UNKNOWN216", 0xd8},
	{"OP_UNKNOWN217", 0xd9},
	{"OP_UNKNOWN218", 0xda},
	{"OP_UNKNOWN219", 0xdb},
	{"OP_UNKNOWN220", 0xdc},
	{"OP_UNKNOWN221", 0xdd},
	{"OP_UNKNOWN222", 0xde},
	{"OP_UNKNOWN223", 0xdf},
	{"OP_UNKNOWN224", 0xe0},
	{"OP_UNKNOWN225", 0xe1},
	{"OP_UNKNOWN226", 0xe2},
	{"OP_UNKNOWN227", 0xe3},
	{"OP_UNKNOWN228", 0xe4},
	{"OP_UNKNOWN229", 0xe5},
	{"OP_UNKNOWN230", 0xe6},
	{"OP_UNKNOWN231", 0xe7},
	{"OP_UNKNOWN232", 0xe8},
	{"OP_UNKNOWN233", 0xe9},
	{"OP_UNKNOWN234", 0xea},
	{"OP_UNKNOWN235", 0xeb},
	{"OP_UNKNOWN236", 0xec},
	{"OP_UNKNOWN237", 0xed},
	{"OP_UNKNOWN238", 0xee},
	{"OP_UNKNOWN239", 0xef},
	{"OP_UNKNOWN240", 0xf0},
	{"OP_UNKNOWN241", 0xf1},
	{"OP_UNKNOWN242", 0xf2},
	{"OP_UNKNOWN243", 0xf3},
	{"OP_UNKNOWN244", 0xf4},
	{"OP_UNKNOWN245", 0xf5},
	{"OP_UNKNOWN246", 0xf6},
	{"OP_UNKNOWN247", 0xf7},
	{"OP_UNKNOWN248", 0xf8},
	{"OP_UNKNOWN249", 0xf9},
	{"OP_SMALLINTEGER", 0xfa},
	{"OP_PUBKEYS", 0xfb},
	{"OP_UNKNOWN252", 0xfc},
	{"OP_PUBKEYHASH", 0xfd},
	{"OP_PUBKEY", 0xfe},
	{"OP_INVALIDOPCODE", 0xff},
}

// opConst: the exported constants.
var opConsts = [...][2]byte{
	{script.Op0, 0x00},
	{script.OpZERO, 0x00},
	{script.OpFALSE, 0x00},
	{script.OpDATA1, 0x01},
	{script.OpDATA2, 0x02},
	{script.OpDATA3, 0x03},
	{script.OpDATA4, 0x04},
	{script.OpDATA5, 0x05},
	{script.OpDATA6, 0x06},
	{script.OpDATA7, 0x07},
	{script.OpDATA8, 0x08},
	{script.OpDATA9, 0x09},
	{script.OpDATA10, 0x0a},
	{script.OpDATA11, 0x0b},
	{script.OpDATA12, 0x0c},
	{script.OpDATA13, 0x0d},
	{script.OpDATA14, 0x0e},
	{script.OpDATA15, 0x0f},
	{script.OpDATA16, 0x10},
	{script.OpDATA17, 0x11},
	{script.OpDATA18, 0x12},
	{script.OpDATA19, 0x13},
	{script.OpDATA20, 0x14},
	{script.OpDATA21, 0x15},
	{script.OpDATA22, 0x16},
	{script.OpDATA23, 0x17},
	{script.OpDATA24, 0x18},
	{script.OpDATA25, 0x19},
	{script.OpDATA26, 0x1a},
	{script.OpDATA27, 0x1b},
	{script.OpDATA28, 0x1c},
	{script.OpDATA29, 0x1d},
	{script.OpDATA30, 0x1e},
	{script.OpDATA31, 0x1f},
	{script.OpDATA32, 0x20},
	{script.OpDATA33, 0x21},
	{script.OpDATA34, 0x22},
	{script.OpDATA35, 0x23},
	{script.OpDATA36, 0x24},
	{script.OpDATA37, 0x25},
	{script.OpDATA38, 0x26},
	{script.OpDATA39, 0x27},
	{script.OpDATA40, 0x28},
	{script.OpDATA41, 0x29},
	{script.OpDATA42, 0x2a},
	{script.OpDATA43, 0x2b},
	{script.OpDATA44, 0x2c},
	{script.OpDATA45, 0x2d},
	{script.OpDATA46, 0x2e},
	{script.OpDATA47, 0x2f},
	{script.OpDATA48, 0x30},
	{script.OpDATA49, 0x31},
	{script.OpDATA50, 0x32},
	{script.OpDATA51, 0x33},
	{script.OpDATA52, 0x34},
	{script.OpDATA53, 0x35},
	{script.OpDATA54, 0x36},
	{script.OpDATA55, 0x37},
	{script.OpDATA56, 0x38},
	{script.OpDATA57, 0x39},
	{script.OpDATA58, 0x3a},
	{script.OpDATA59, 0x3b},
	{script.OpDATA60, 0x3c},
	{script.OpDATA61, 0x3d},
	{script.OpDATA62, 0x3e},
	{script.OpDATA63, 0x3f},
	{script.OpDATA64, 0x40},
	{script.OpDATA65, 0x41},
	{script.OpDATA66, 0x42},
	{script.OpDATA67, 0x43},
	{script.OpDATA68, 0x44},
	{script.OpDATA69, 0x45},
	{script.OpDATA70, 0x46},
	{script.OpDATA71, 0x47},
	{script.OpDATA72, 0x48},
	{script.OpDATA73, 0x49},
	{script.OpDATA74, 0x4a},
	{script.OpDATA75, 0x4b},
	{script.OpPUSHDATA1, 0x4c},
	{script.OpPUSHDATA2, 0x4d},
	{script.OpPUSHDATA4, 0x4e},
	{script.Op1NEGATE, 0x4f},
	{script.OpRESERVED, 0x50},
	{script.OpBASE, 0x50},
	{script.Op1, 0x51},
	{script.OpONE, 0x51},
	{script.OpTRUE, 0x51},
	{script.Op2, 0x52},
	{script.Op3, 0x53},
	{script.Op4, 0x54},
	{script.Op5, 0x55},
	{script.Op6, 0x56},
	{script.Op7, 0x57},
	{script.Op8, 0x58},
	{script.Op9, 0x59},
	{script.Op10, 0x5a},
	{script.Op11, 0x5b},
	{script.Op12, 0x5c},
	{script.Op13, 0x5d},
	{script.Op14, 0x5e},
	{script.Op15, 0x5f},
	{script.Op16, 0x60},
	{script.OpNOP, 0x61},
	{script.OpVER, 0x62},
	{script.OpIF, 0x63},
	{script.OpNOTIF, 0x64},
	{script.OpVERIF, 0x65},
	{script.OpVERNOTIF, 0x66},
	{script.OpELSE, 0x67},
	{script.OpENDIF, 0x68},
	{script.OpVERIFY, 0x69},
	{script.OpRETURN, 0x6a},
	{script.OpTOALTSTACK, 0x6b},
	{script.OpFROMALTSTACK, 0x6c},
	{script.Op2DROP, 0x6d},
	{script.Op2DUP, 0x6e},
	{script.Op3DUP, 0x6f},
	{script.Op2OVER, 0x70},
	{script.Op2ROT, 0x71},
	{script.Op2SWAP, 0x72},
	{script.OpIFDUP, 0x73},
	{script.OpDEPTH, 0x74},
	{script.OpDROP, 0x75},
	{script.OpDUP, 0x76},
	{script.OpNIP, 0x77},
	{script.OpOVER, 0x78},
	{script.OpPICK, 0x79},
	{script.OpROLL, 0x7a},
	{script.OpROT, 0x7b},
	{script.OpSWAP, 0x7c},
	{script.OpTUCK, 0x7d},
	{script.OpCAT, 0x7e},
	{script.OpSPLIT, 0x7f},
	{script.OpNUM2BIN, 0x80},
	{script.OpBIN2NUM, 0x81},
	{script.OpSIZE, 0x82},
	{script.OpINVERT, 0x83},
	{script.OpAND, 0x84},
	{script.OpOR, 0x85},
	{script.OpXOR, 0x86},
	{script.OpEQUAL, 0x87},
	{script.OpEQUALVERIFY, 0x88},
	{script.OpRESERVED1, 0x89},
	{script.OpRESERVED2, 0x8a},
	{script.Op1ADD, 0x8b},
	{script.Op1SUB, 0x8c},
	{script.Op2MUL, 0x8d},
	{script.Op2DIV, 0x8e},
	{script.OpNEGATE, 0x8f},
	{script.OpABS, 0x90},
	{script.OpNOT, 0x91},
	{script.Op0NOTEQUAL, 0x92},
	{script.OpADD, 0x93},
	{script.OpSUB, 0x94},
	{script.OpMUL, 0x95},
	{script.OpDIV, 0x96},
	{script.OpMOD, 0x97},
	{script.OpLSHIFT, 0x98},
	{script.OpRSHIFT, 0x99},
	{script.OpBOOLAND, 0x9a},
	{script.OpBOOLOR, 0x9b},
	{script.OpNUMEQUAL, 0x9c},
	{script.OpNUMEQUALVERIFY, 0x9d},
	{script.OpNUMNOTEQUAL, 0x9e},
	{script.OpLESSTHAN, 0x9f},
	{script.OpGREATERTHAN, 0xa0},
	{script.OpLESSTHANOREQUAL, 0xa1},
	{script.OpGREATERTHANOREQUAL, 0xa2},
	{script.OpMIN, 0xa3},
	{script.OpMAX, 0xa4},
	{script.OpWITHIN, 0xa5},
	{script.OpRIPEMD160, 0xa6},
	{script.OpSHA1, 0xa7},
	{script.OpSHA256, 0xa8},
	{script.OpHASH160, 0xa9},
	{script.OpHASH256, 0xaa},
	{script.OpCODESEPARATOR, 0xab},
	{script.OpCHECKSIG, 0xac},
	{script.OpCHECKSIGVERIFY, 0xad},
	{script.OpCHECKMULTISIG, 0xae},
	{script.OpCHECKMULTISIGVERIFY, 0xaf},
	{script.OpNOP1, 0xb0},
	{script.OpNOP2, 0xb1},
	{script.OpNOP3, 0xb2},
	{script.OpNOP4, 0xb3},
	{script.OpNOP5, 0xb4},
	{script.OpNOP6, 0xb5},
	{script.OpNOP7, 0xb6},
	{script.OpNOP8, 0xb7},
	{script.OpNOP9, 0xb8},
	{script.OpNOP10, 0xb9},
	{script.OpUNKNOWN186, 0xba},
	{script.OpUNKNOWN187, 0xbb},
	{script.OpUNKNOWN188, 0xbc},
	{script.OpUNKNOWN189, 0xbd},
	{script.OpUNKNOWN190, 0xbe},
	{script.OpUNKNOWN191, 0xbf},
	{script.OpUNKNOWN192, 0xc0},
	{script.OpUNKNOWN193, 0xc1},
	{script.OpUNKNOWN194, 0xc2},
	{script.OpUNKNOWN195, 0xc3},
	{script.OpUNKNOWN196, 0xc4},
	{script.OpUNKNOWN197, 0xc5},
	{script.OpUNKNOWN198, 0xc6},
	{script.OpUNKNOWN199, 0xc7},
	{script.OpUNKNOWN200, 0xc8},
	{script.OpUNKNOWN201, 0xc9},
	{script.OpUNKNOWN202, 0xca},
	{script.OpUNKNOWN203, 0xcb},
	{script.OpUNKNOWN204, 0xcc},
	{script.OpUNKNOWN205, 0xcd},
	{script.OpUNKNOWN206, 0xce},
	{script.OpUNKNOWN207, 0xcf},
	{script.OpUNKNOWN208, 0xd0},
	{script.OpUNKNOWN209, 0xd1},
	{script.OpUNKNOWN210, 0xd2},
	{script.OpUNKNOWN211, 0xd3},
	{script.OpUNKNOWN212, 0xd4},
	{script.OpUNKNOWN213, 0xd5},
	{script.OpUNKNOWN214, 0xd6},
	{script.OpUNKNOWN215, 0xd7},
	{script.OpUNKNOWN216, 0xd8},
	{script.OpUNKNOWN217, 0xd9},
	{script.OpUNKNOWN218, 0xda},
	{script.OpUNKNOWN219, 0xdb},
	{script.OpUNKNOWN220, 0xdc},
	{script.OpUNKNOWN221, 0xdd},
	{script.OpUNKNOWN222, 0xde},
	{script.OpUNKNOWN223, 0xdf},
	{script.OpUNKNOWN224, 0xe0},
	{script.OpUNKNOWN225, 0xe1},
	{script.OpUNKNOWN226, 0xe2},
	{script.OpUNKNOWN227, 0xe3},
	{script.OpUNKNOWN228, 0xe4},
	{script.OpUNKNOWN229, 0xe5},
	{script.OpUNKNOWN230, 0xe6},
	{script.OpUNKNOWN231, 0xe7},
	{script.OpUNKNOWN232, 0xe8},
	{script.OpUNKNOWN233, 0xe9},
	{script.OpUNKNOWN234, 0xea},
	{script.OpUNKNOWN235, 0xeb},
	{script.OpUNKNOWN236, 0xec},
	{script.OpUNKNOWN237, 0xed},
	{script.OpUNKNOWN238, 0xee},
	{script.OpUNKNOWN239, 0xef},
	{script.OpUNKNOWN240, 0xf0},
	{script.OpUNKNOWN241, 0xf1},
	{script.OpUNKNOWN242, 0xf2},
	{script.OpUNKNOWN243, 0xf3},
	{script.OpUNKNOWN244, 0xf4},
	{script.OpUNKNOWN245, 0xf5},
	{script.OpUNKNOWN246, 0xf6},
	{script.OpUNKNOWN247, 0xf7},
	{script.OpUNKNOWN248, 0xf8},
	{script.OpUNKNOWN249, 0xf9},
	{script.OpSMALLINTEGER, 0xfa},
	{script.OpPUBKEYS, 0xfb},
	{script.OpUNKNOWN252, 0xfc},
	{script.OpPUBKEYHASH, 0xfd},
	{script.OpPUBKEY, 0xfe},
	{script.OpINVALIDOPCODE, 0xff},
}

// opOfByte: the name of every opcode byte.
var opOfByte = [256]string{
	"OP_FALSE",
	"OP_DATA_1",
	"OP_DATA_2",
	"OP_DATA_3",
	"OP_DATA_4",
	"OP_DATA_5",
	"OP_DATA_6",
	"OP_DATA_7",
	"OP_DATA_8",
	"OP_DATA_9",
	"OP_DATA_10",
	"OP_DATA_11",
	"OP_DATA_12",
	"OP_DATA_13",
	"OP_DATA_14",
	"OP_DATA_15",
	"OP_DATA_16",
	"OP_DATA_17",
	"OP_DATA_18",
	"OP_DATA_19",
	"OP_DATA_20",
	"OP_DATA_21",
	"OP_DATA_22",
	"OP_DATA_23",
	"OP_DATA_24",
	"OP_DATA_25",
	"OP_DATA_26",
	"OP_DATA_27",
	"OP_DATA_28",
	"OP_DATA_29",
	"OP_DATA_30",
	"OP_DATA_31",
	"OP_DATA_32",
	"OP_DATA_33",
	"OP_DATA_34",
	"OP_DATA_35",
	"OP_DATA_36",
	"OP_DATA_37",
	"OP_DATA_38",
	"OP_DATA_39",
	"OP_DATA_40",
	"OP_DATA_41",
	"OP_DATA_42",
	"OP_DATA_43",
	"OP_DATA_44",
	"OP_DATA_45",
	"OP_DATA_46",
	"OP_DATA_47",
	"OP_DATA_48",
	"OP_DATA_49",
	"OP_DATA_50",
	"OP_DATA_51",
	"OP_DATA_52",
	"OP_DATA_53",
	"OP_DATA_54",
	"OP_DATA_55",
	"OP_DATA_56",
	"OP_DATA_57",
	"OP_DATA_58",
	"OP_DATA_59",
	"OP_DATA_60",
	"OP_DATA_61",
	"OP_DATA_62",
	"OP_DATA_63",
	"OP_DATA_64",
	"OP_DATA_65",
	"OP_DATA_66",
	"OP_DATA_67",
	"OP_DATA_68",
	"OP_DATA_69",
	"OP_DATA_70",
	"OP_DATA_71",
	"OP_DATA_72",
	"OP_DATA_73",
	"OP_DATA_74",
	"OP_DATA_75",
	"OP_PUSHDATA1",
	"OP_PUSHDATA2",
	"OP_PUSHDATA4",
	"OP_1NEGATE",
	"OP_BASE",
	"OP_TRUE",
	"OP_2",
	"OP_3",
	"OP_4",
	"OP_5",
	"OP_6",
	"OP_7",
	"OP_8",
	"OP_9",
	"OP_10",
	"OP_11",
	"OP_12",
	"OP_13",
	"OP_14",
	"OP_15",
	"OP_16",
	"OP_NOP",
	"OP_VER",
	"OP_IF",
	"OP_NOTIF",
	"OP_VERIF",
	"OP_VERNOTIF",
	"OP_ELSE",
	"OP_ENDIF",
	"OP_VERIFY",
	"OP_RETURN",
	"OP_TOALTSTACK",
	"OP_FROMALTSTACK",
	"OP_2DROP",
	"OP_2DUP",
	"OP_3DUP",
	"OP_2OVER",
	"OP_2ROT",
	"OP_2SWAP",
	"OP_IFDUP",
	"OP_DEPTH",
	"OP_DROP",
	"OP_DUP",
	"OP_NIP",
	"OP_OVER",
	"OP_PICK",
	"OP_ROLL",
	"OP_ROT",
	"OP_SWAP",
	"OP_TUCK",
	"OP_CAT",
	"OP_SPLIT",
	"OP_NUM2BIN",
	"OP_BIN2NUM",
	"OP_SIZE",
	"OP_INVERT",
	"OP_AND",
	"OP_OR",
	"OP_XOR",
	"OP_EQUAL",
	"OP_EQUALVERIFY",
	"OP_RESERVED1",
	"OP_RESERVED2",
	"OP_1ADD",
	"OP_1SUB",
	"OP_2MUL",
	"OP_2DIV",
	"OP_NEGATE",
	"OP_ABS",
	"OP_NOT",
	"OP_0NOTEQUAL",
	"OP_ADD",
	"OP_SUB",
	"OP_MUL",
	"OP_DIV",
	"OP_MOD",
	"OP_LSHIFT",
	"OP_RSHIFT",
	"OP_BOOLAND",
	"OP_BOOLOR",
	"OP_NUMEQUAL",
	"OP_NUMEQUALVERIFY",
	"OP_NUMNOTEQUAL",
	"OP_LESSTHAN",
	"OP_GREATERTHAN",
	"OP_LESSTHANOREQUAL",
	"OP_GREATERTHANOREQUAL",
	"OP_MIN",
	"OP_MAX",
	"OP_WITHIN",
	"OP_RIPEMD160",
	"OP_SHA1",
	"OP_SHA256",
	"OP_HASH160",
	"OP_HASH256",
	"OP_CODESEPARATOR",
	"OP_CHECKSIG",
	"OP_CHECKSIGVERIFY",
	"OP_CHECKMULTISIG",
	"OP_CHECKMULTISIGVERIFY",
	"OP_NOP1",
	"OP_NOP2",
	"OP_NOP3",
	"OP_NOP4",
	"OP_NOP5",
	"OP_NOP6",
	"OP_NOP7",
	"OP_NOP8",
	"OP_NOP9",
	"OP_NOP10",
	"OP_UNKNOWN186",
	"OP_UNKNOWN187",
	"OP_UNKNOWN188",
	"OP_UNKNOWN189",
	"OP_UNKNOWN190",
	"OP_UNKNOWN191",
	"OP_UNKNOWN192",
	"OP_UNKNOWN193",
	"OP_UNKNOWN194",
	"OP_UNKNOWN195",
	"OP_UNKNOWN196",
	"OP_UNKNOWN197",
	"OP_UNKNOWN198",
	"OP_UNKNOWN199",
	"OP_UNKNOWN200",
	"OP_UNKNOWN201",
	"OP_UNKNOWN202",
	"OP_UNKNOWN203",
	"OP_UNKNOWN204",
	"OP_UNKNOWN205",
	"OP_UNKNOWN206",
	"OP_UNKNOWN207",
	"OP_UNKNOWN208",
	"OP_UNKNOWN209",
	"OP_UNKNOWN210",
	"OP_UNKNOWN211",
	"OP_UNKNOWN212",
	"OP_UNKNOWN213",
	"OP_UNKNOWN214",
	"OP_UNKNOWN215",
	"OP_UNKNOWN216",
	"OP_UNKNOWN217",
	"OP_UNKNOWN218",
	"OP_UNKNOWN219",
	"OP_UNKNOWN220",
	"OP_UNKNOWN221",
	"OP_UNKNOWN222",
	"OP_UNKNOWN223",
	"OP_UNKNOWN224",
	"OP_UNKNOWN225",
	"OP_UNKNOWN226",
	"OP_UNKNOWN227",
	"OP_UNKNOWN228",
	"OP_UNKNOWN229",
	"OP_UNKNOWN230",
	"OP_UNKNOWN231",
	"OP_UNKNOWN232",
	"OP_UNKNOWN233",
	"OP_UNKNOWN234",
	"OP_UNKNOWN235",
	"OP_UNKNOWN236",
	"OP_UNKNOWN237",
	"OP_UNKNOWN238",
	"OP_UNKNOWN239",
	"OP_UNKNOWN240",
	"OP_UNKNOWN241",
	"OP_UNKNOWN242",
	"OP_UNKNOWN243",
	"OP_UNKNOWN244",
	"OP_UNKNOWN245",
	"OP_UNKNOWN246",
	"OP_UNKNOWN247",
	"OP_UNKNOWN248",
	"OP_UNKNOWN249",
	"OP_SMALLINTEGER",
	"OP_PUBKEYS",
	"OP_UNKNOWN252",
	"OP_PUBKEYHASH",
	"OP_PUBKEY",
	"OP_INVALIDOPCODE",
}
