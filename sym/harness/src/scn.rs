// generated by tools/scenarios.py; do not edit
use crate::slots::{Alt, Item, Slot, T};
pub const F_MODULE: u32 = 1;
pub const F_TOLERANT: u32 = 2;
pub const F_COMMENTS: u32 = 4;
pub struct Scn { pub items: &'static [Item], pub flags: u32, pub size: u8, pub edits: u8 }
pub static ANY: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146];
pub static COMMENTS: &[u8] = &[147, 148, 149, 150, 151, 152];
static D0: [u8; 1] = [6];
static D1: [u8; 1] = [1];
static D2: [u8; 1] = [2];
static D3: [u8; 1] = [7];
static D4: [u8; 1] = [90];
static D5: [u8; 1] = [95];
static D6: [u8; 1] = [76];
static D7: [u8; 1] = [58];
static D8: [u8; 1] = [15];
static D9: [u8; 1] = [96];
static D10: [u8; 1] = [70];
static D11: [u8; 1] = [3];
static D12: [u8; 1] = [4];
static D13: [u8; 1] = [64];
static D14: [u8; 1] = [68];
static D15: [u8; 3] = [58, 76, 90];
static D16: [u8; 1] = [73];
static D17: [u8; 1] = [101];
static D18: [u8; 1] = [53];
static D19: [u8; 1] = [92];
static D20: [u8; 1] = [63];
static D21: [u8; 2] = [54, 59];
static D22: [u8; 1] = [82];
static D23: [u8; 1] = [93];
static D24: [u8; 1] = [85];
static D25: [u8; 1] = [87];
static D26: [u8; 1] = [88];
static D27: [u8; 1] = [56];
static D28: [u8; 1] = [67];
static D29: [u8; 1] = [10];
static D30: [u8; 1] = [60];
static D31: [u8; 1] = [98];
static D32: [u8; 30] = [1, 3, 8, 53, 57, 69, 72, 76, 77, 83, 84, 86, 89, 94, 95, 96, 98, 99, 101, 105, 111, 112, 113, 114, 115, 116, 123, 127, 131, 135];
static D33: [u8; 38] = [7, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 43, 44, 45, 46, 47, 48, 50, 51, 52, 73, 74];
static D34: [u8; 12] = [12, 16, 17, 18, 41, 42, 53, 62, 77, 89, 91, 94];
static D35: [u8; 2] = [41, 42];
static D36: [u8; 1] = [11];
static D37: [u8; 1] = [5];
static D38: [u8; 1] = [8];
static D39: [u8; 1] = [9];
static D40: [u8; 1] = [26];
static D41: [u8; 1] = [77];
static D42: [u8; 1] = [104];
static D43: [u8; 1] = [84];
static D44: [u8; 3] = [137, 138, 144];
static D45: [u8; 3] = [141, 142, 145];
static D46: [u8; 2] = [139, 140];
static D47: [u8; 1] = [49];
static D48: [u8; 1] = [94];
static D49: [u8; 1] = [19];
static D50: [u8; 1] = [72];
static D51: [u8; 35] = [53, 57, 65, 69, 70, 71, 73, 75, 76, 77, 78, 79, 80, 81, 83, 84, 86, 89, 90, 94, 95, 96, 98, 99, 101, 102, 103, 104, 105, 106, 107, 110, 111, 112, 113];
static D52: [u8; 1] = [55];
static D53: [u8; 1] = [61];
static D54: [u8; 1] = [125];
static D55: [u8; 1] = [69];
static D56: [u8; 1] = [57];
static D57: [u8; 1] = [110];
static D58: [u8; 1] = [100];
static D59: [u8; 1] = [83];
static D60: [u8; 1] = [107];
static D61: [u8; 17] = [53, 70, 76, 83, 94, 95, 98, 99, 100, 107, 108, 109, 112, 115, 116, 123, 130];
static D62: [u8; 1] = [99];
static D63: [u8; 27] = [111, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 143, 146];
static D64: [u8; 1] = [123];
static D65: [u8; 1] = [102];
static D66: [u8; 1] = [103];
static D67: [u8; 1] = [66];
static D68: [u8; 1] = [106];
static D69: [u8; 1] = [121];
static D70: [u8; 1] = [62];
static D71: [u8; 1] = [105];
static D72: [u8; 2] = [95, 96];
static D73: [u8; 24] = [13, 14, 17, 18, 19, 20, 21, 22, 23, 24, 27, 28, 29, 33, 34, 35, 36, 43, 44, 50, 51, 52, 73, 74];
static D74: [u8; 13] = [15, 25, 30, 31, 32, 37, 38, 39, 40, 45, 46, 47, 48];
static D75: [u8; 1] = [137];
static D76: [u8; 1] = [141];
static D77: [u8; 39] = [7, 11, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 43, 44, 45, 46, 47, 48, 50, 51, 52, 73, 74];
static D78: [u8; 36] = [53, 57, 65, 69, 70, 71, 73, 75, 76, 77, 78, 79, 80, 81, 83, 84, 86, 89, 90, 94, 95, 96, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 110, 111, 112, 113];
static D79: [u8; 1] = [41];
static D80: [u8; 1] = [89];
static D81: [u8; 1] = [18];
static D82: [u8; 1] = [17];
static D83: [u8; 1] = [54];
static D84: [u8; 1] = [59];
static D85: [u8; 1] = [135];
static D86: [u8; 1] = [97];
static D87: [u8; 11] = [70, 83, 95, 98, 99, 100, 107, 108, 115, 123, 130];
static D88: [u8; 1] = [109];
static D89: [u8; 1] = [86];
static D90: [u8; 1] = [115];
static D91: [u8; 1] = [24];
static D92: [u8; 1] = [37];
static D93: [u8; 1] = [52];
static D94: [u8; 1] = [108];
static D95: [u8; 1] = [16];
static D96: [u8; 152] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152];
static D97: [u8; 146] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146];
static D98: [u8; 1] = [139];
static D99: [u8; 1] = [42];
static D100: [u8; 10] = [1, 2, 3, 4, 6, 63, 64, 70, 92, 95];
static D101: [u8; 8] = [1, 2, 6, 10, 54, 55, 61, 95];
static D102: [u8; 9] = [1, 2, 3, 4, 6, 56, 67, 88, 95];
static D103: [u8; 8] = [1, 2, 3, 6, 54, 59, 68, 95];
static D104: [u8; 8] = [8, 19, 83, 95, 98, 99, 100, 107];
static D105: [u8; 6] = [147, 148, 149, 150, 151, 152];
static D106: [u8; 1] = [112];
static D107: [u8; 6] = [72, 76, 83, 94, 98, 99];
static D108: [u8; 14] = [53, 54, 59, 73, 76, 77, 82, 83, 84, 93, 94, 95, 105, 106];
static D109: [u8; 11] = [53, 76, 83, 94, 95, 96, 98, 99, 101, 105, 112];
static D110: [u8; 13] = [3, 4, 8, 9, 19, 83, 95, 98, 99, 100, 107, 115, 123];
static D111: [u8; 17] = [1, 2, 3, 4, 6, 7, 8, 9, 10, 19, 26, 95, 98, 99, 100, 115, 123];
static D112: [u8; 10] = [1, 2, 7, 8, 9, 10, 15, 26, 95, 96];
static D113: [u8; 7] = [3, 4, 7, 15, 26, 49, 95];
static D114: [u8; 10] = [1, 2, 6, 7, 19, 61, 95, 102, 103, 123];
static D115: [u8; 16] = [1, 2, 3, 4, 6, 7, 15, 19, 57, 61, 69, 90, 95, 102, 103, 123];
static D116: [u8; 20] = [1, 2, 3, 4, 5, 8, 9, 41, 53, 77, 84, 86, 94, 95, 105, 106, 111, 113, 115, 123];
static D117: [u8; 1] = [34];
static D118: [u8; 1] = [78];
static D119: [u8; 5] = [6, 95, 123, 125, 126];
static D120: [u8; 8] = [3, 4, 5, 7, 8, 9, 77, 95];
static D121: [u8; 9] = [3, 4, 5, 8, 9, 41, 77, 95, 135];
static D122: [u8; 1] = [131];
pub static GRAMMAR: [&[Alt]; 91] = [
    &[Alt { cost: 0, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 4, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 4, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 4, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D30, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 7, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D32, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D33, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D35, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 14, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 14, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 14, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 14, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 14, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 7, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 3, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 9, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 9, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 9, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 9, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 9, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 10, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 10, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 10, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 12, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: 12, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D61, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 12, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 8, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 5, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 19, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 19, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 19, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D30, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 21, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: 21, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 22, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D32, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D33, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D35, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: 28, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: 28, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 29, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 29, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 29, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 29, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 29, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 21, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 21, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: 21, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 22, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 18, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 24, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 24, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 24, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 24, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 24, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 25, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 25, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 25, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 27, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: 27, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D61, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 16, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 27, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 23, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: 26, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 17, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 20, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 32, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 32, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 33, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 33, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: 7, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: 6, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: 7, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 1, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 2, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 32, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 32, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 33, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: 13, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 33, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 37, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 34, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 36, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D68, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D69, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D30, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D72, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 39, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 39, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 39, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 39, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 39, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D35, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D35, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D82, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D78, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 43, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 43, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 47, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 47, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 45, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 45, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 52, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 52, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 46, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 52, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 48, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D87, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 48, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 51, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D87, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 48, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 48, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 51, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D68, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D87, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D87, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D87, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 51, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D87, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D88, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 2, items: &[Item { nt: 51, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 49, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 50, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 55, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 11, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 54, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 55, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 55, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D89, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 55, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D82, nl: 0 } }, Item { nt: 55, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 55, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D89, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D82, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D91, nl: 0 } }, Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D92, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 60, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D93, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D93, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 58, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D89, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D68, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 61, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 63, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 64, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 66, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 67, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 68, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 67, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 68, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 67, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 68, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 68, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 68, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 68, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 69, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 71, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 72, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 74, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D95, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 78, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 78, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: 78, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 78, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[] }, Alt { cost: 1, items: &[Item { nt: 80, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: 79, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: 81, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: 79, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 79, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 81, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: 81, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: 81, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: 81, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: 81, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: 81, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D86, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 15, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 31, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 31, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 31, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 31, slot: Slot { dom: &[], nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: 31, slot: Slot { dom: &[], nl: 0 } }, Item { nt: 0, slot: Slot { dom: &[], nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: 40, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 41, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 1, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 42, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 45, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 45, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 45, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 45, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 46, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: 53, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 75, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: 76, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 77, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }],
    &[Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 79, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 79, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] }, Alt { cost: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: 79, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] }],
];
pub static SCN: [Scn; 3010] = [
    Scn { flags: 0, size: 0, edits: 0, items: &[] },
    Scn { flags: 1, size: 0, edits: 0, items: &[] },
    Scn { flags: 2, size: 0, edits: 0, items: &[] },
    Scn { flags: 3, size: 0, edits: 0, items: &[] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 6, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 7, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 6, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 7, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D98, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D98, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D98, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D98, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D96, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D99, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D99, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D77, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D30, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D100, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D101, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D102, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D103, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D106, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D106, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 6, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D84, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D28, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D108, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 4, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 5, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 6, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 7, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 3 } }, Item { nt: T, slot: Slot { dom: &D105, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D83, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D107, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D110, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D111, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D99, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D113, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D66, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D15, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D64, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 3, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D115, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D114, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D67, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D65, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D13, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D91, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D91, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D46, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D44, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D45, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D22, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D74, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D99, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D99, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D99, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D99, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D16, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D94, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D57, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D104, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D60, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D42, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D112, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D53, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D25, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D25, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D109, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D24, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D52, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D21, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D20, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D19, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D36, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D117, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D117, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D117, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D117, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D80, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 1, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D116, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D71, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D26, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D27, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D14, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D17, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D4, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D70, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D7, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D10, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D118, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D118, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D118, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D118, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D118, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D118, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D59, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D69, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D69, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D69, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D69, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D69, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D69, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D62, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D58, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D49, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D73, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D63, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D119, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 2, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D23, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D40, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D34, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D51, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D89, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D89, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D56, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D43, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D75, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D76, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D85, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D122, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D90, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 2 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D8, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D79, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D81, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D18, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D50, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D55, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D47, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D1, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D9, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D29, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D2, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D38, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D39, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D31, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D6, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D48, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D120, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D121, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D37, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D41, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 0, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D5, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D11, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D3, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D12, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D97, nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 0, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 1, edits: 0, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 2, edits: 0, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 3, edits: 0, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 1, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 1, edits: 1, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 1, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 0, items: &[Item { nt: 82, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 82, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 0, items: &[Item { nt: 83, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 2, edits: 0, items: &[Item { nt: 84, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 3, edits: 0, items: &[Item { nt: 84, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 1, edits: 1, items: &[Item { nt: 84, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 4, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 4, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 8, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 8, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 4, size: 1, edits: 16, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 4, size: 2, edits: 16, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 2, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 9, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 1, items: &[Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 1, items: &[Item { nt: 38, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 85, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 85, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 0, items: &[Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 1, edits: 0, items: &[Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 2, edits: 0, items: &[Item { nt: 44, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 86, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 86, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 87, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 87, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 1, edits: 1, items: &[Item { nt: 87, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 56, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 57, slot: Slot { dom: &[], nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 2, edits: 0, items: &[Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 59, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 35, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 3, size: 1, edits: 1, items: &[Item { nt: 30, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 1, size: 1, edits: 9, items: &[Item { nt: 84, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 5, edits: 0, items: &[Item { nt: 62, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 5, edits: 0, items: &[Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 5, edits: 0, items: &[Item { nt: 70, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 5, edits: 0, items: &[Item { nt: 73, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 88, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 88, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: T, slot: Slot { dom: &D54, nl: 0 } }, Item { nt: T, slot: Slot { dom: &D0, nl: 0 } }, Item { nt: 65, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 89, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 89, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 2, edits: 0, items: &[Item { nt: 90, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 3, edits: 0, items: &[Item { nt: 90, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 90, slot: Slot { dom: &[], nl: 0 } }] },
    Scn { flags: 0, size: 4, edits: 0, items: &[Item { nt: 89, slot: Slot { dom: &[], nl: 0 } }] },
];
