// written by tools/mkwitness.py, do not edit
use super::*;

#[derive(Deserialize)]
pub struct DNames {
    #[serde(rename = "r#x")]
    pub f0: DTok,
    #[serde(rename = "x")]
    pub f1: DTok,
    #[serde(rename = "r#")]
    pub f2: DTok,
    #[serde(rename = "r")]
    pub f3: DTok,
    #[serde(rename = " lead")]
    pub f4: DTok,
    #[serde(rename = "lead")]
    pub f5: DTok,
    #[serde(rename = "trail ")]
    pub f6: DTok,
    #[serde(rename = "trail")]
    pub f7: DTok,
    #[serde(rename = "\u{9}tab\u{9}")]
    pub f8: DTok,
    #[serde(rename = "tab")]
    pub f9: DTok,
    #[serde(rename = "line\u{a}break")]
    pub f10: DTok,
    #[serde(rename = "nul\u{0}")]
    pub f11: DTok,
    #[serde(rename = "nul")]
    pub f12: DTok,
    #[serde(rename = "\u{7f}")]
    pub f13: DTok,
    #[serde(rename = "a.b")]
    pub f14: DTok,
    #[serde(rename = "a-b")]
    pub f15: DTok,
    #[serde(rename = "a_b")]
    pub f16: DTok,
    #[serde(rename = "a/b")]
    pub f17: DTok,
    #[serde(rename = "a::b")]
    pub f18: DTok,
    #[serde(rename = "ab")]
    pub f19: DTok,
    #[serde(rename = "UPPER")]
    pub f20: DTok,
    #[serde(rename = "upper")]
    pub f21: DTok,
    #[serde(rename = "Upper")]
    pub f22: DTok,
    #[serde(rename = "Mixed Case")]
    pub f23: DTok,
    #[serde(rename = "mixedCase")]
    pub f24: DTok,
    #[serde(rename = "mixed_case")]
    pub f25: DTok,
    #[serde(rename = "0")]
    pub f26: DTok,
    #[serde(rename = "00")]
    pub f27: DTok,
    #[serde(rename = "123")]
    pub f28: DTok,
    #[serde(rename = "-1")]
    pub f29: DTok,
    #[serde(rename = "1.0")]
    pub f30: DTok,
    #[serde(rename = "true")]
    pub f31: DTok,
    #[serde(rename = "null")]
    pub f32: DTok,
    #[serde(rename = "$ref")]
    pub f33: DTok,
    #[serde(rename = "@type")]
    pub f34: DTok,
    #[serde(rename = "#")]
    pub f35: DTok,
    #[serde(rename = "[0]")]
    pub f36: DTok,
    #[serde(rename = "{}")]
    pub f37: DTok,
    #[serde(rename = "{0}")]
    pub f38: DTok,
    #[serde(rename = "%s")]
    pub f39: DTok,
    #[serde(rename = "\u{5c}")]
    pub f40: DTok,
    #[serde(rename = "\u{22}")]
    pub f41: DTok,
    #[serde(rename = "\u{5c}n")]
    pub f42: DTok,
    #[serde(rename = "\u{5c}u0041")]
    pub f43: DTok,
    #[serde(rename = "'")]
    pub f44: DTok,
    #[serde(rename = "\u{e9}")]
    pub f45: DTok,
    #[serde(rename = "e\u{301}")]
    pub f46: DTok,
    #[serde(rename = "\u{212a}")]
    pub f47: DTok,
    #[serde(rename = "K")]
    pub f48: DTok,
    #[serde(rename = "k")]
    pub f49: DTok,
    #[serde(rename = "\u{17f}")]
    pub f50: DTok,
    #[serde(rename = "s")]
    pub f51: DTok,
    #[serde(rename = "\u{feff}")]
    pub f52: DTok,
    #[serde(rename = "\u{65e5}\u{672c}")]
    pub f53: DTok,
    #[serde(rename = "\u{1f600}")]
    pub f54: DTok,
    #[serde(rename = ",")]
    pub f55: DTok,
    #[serde(rename = ":")]
    pub f56: DTok,
    #[serde(rename = "__out")]
    pub f57: DTok,
    #[serde(rename = "__k")]
    pub f58: DTok,
    #[serde(rename = "_")]
    pub f59: DTok,
    #[serde(rename = "serde")]
    pub f60: DTok,
    #[serde(rename = "rename")]
    pub f61: DTok,
    #[serde(rename = "self")]
    pub f62: DTok,
    #[serde(rename = "value")]
    pub f63: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f64: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f65: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f66: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f67: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f68: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f69: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f70: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f71: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnna")]
    pub f72: DTok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnb")]
    pub f73: DTok,
}
#[derive(Serialize)]
pub struct SNames {
    #[serde(rename = "r#x")]
    pub f0: STok,
    #[serde(rename = "x")]
    pub f1: STok,
    #[serde(rename = "r#")]
    pub f2: STok,
    #[serde(rename = "r")]
    pub f3: STok,
    #[serde(rename = " lead")]
    pub f4: STok,
    #[serde(rename = "lead")]
    pub f5: STok,
    #[serde(rename = "trail ")]
    pub f6: STok,
    #[serde(rename = "trail")]
    pub f7: STok,
    #[serde(rename = "\u{9}tab\u{9}")]
    pub f8: STok,
    #[serde(rename = "tab")]
    pub f9: STok,
    #[serde(rename = "line\u{a}break")]
    pub f10: STok,
    #[serde(rename = "nul\u{0}")]
    pub f11: STok,
    #[serde(rename = "nul")]
    pub f12: STok,
    #[serde(rename = "\u{7f}")]
    pub f13: STok,
    #[serde(rename = "a.b")]
    pub f14: STok,
    #[serde(rename = "a-b")]
    pub f15: STok,
    #[serde(rename = "a_b")]
    pub f16: STok,
    #[serde(rename = "a/b")]
    pub f17: STok,
    #[serde(rename = "a::b")]
    pub f18: STok,
    #[serde(rename = "ab")]
    pub f19: STok,
    #[serde(rename = "UPPER")]
    pub f20: STok,
    #[serde(rename = "upper")]
    pub f21: STok,
    #[serde(rename = "Upper")]
    pub f22: STok,
    #[serde(rename = "Mixed Case")]
    pub f23: STok,
    #[serde(rename = "mixedCase")]
    pub f24: STok,
    #[serde(rename = "mixed_case")]
    pub f25: STok,
    #[serde(rename = "0")]
    pub f26: STok,
    #[serde(rename = "00")]
    pub f27: STok,
    #[serde(rename = "123")]
    pub f28: STok,
    #[serde(rename = "-1")]
    pub f29: STok,
    #[serde(rename = "1.0")]
    pub f30: STok,
    #[serde(rename = "true")]
    pub f31: STok,
    #[serde(rename = "null")]
    pub f32: STok,
    #[serde(rename = "$ref")]
    pub f33: STok,
    #[serde(rename = "@type")]
    pub f34: STok,
    #[serde(rename = "#")]
    pub f35: STok,
    #[serde(rename = "[0]")]
    pub f36: STok,
    #[serde(rename = "{}")]
    pub f37: STok,
    #[serde(rename = "{0}")]
    pub f38: STok,
    #[serde(rename = "%s")]
    pub f39: STok,
    #[serde(rename = "\u{5c}")]
    pub f40: STok,
    #[serde(rename = "\u{22}")]
    pub f41: STok,
    #[serde(rename = "\u{5c}n")]
    pub f42: STok,
    #[serde(rename = "\u{5c}u0041")]
    pub f43: STok,
    #[serde(rename = "'")]
    pub f44: STok,
    #[serde(rename = "\u{e9}")]
    pub f45: STok,
    #[serde(rename = "e\u{301}")]
    pub f46: STok,
    #[serde(rename = "\u{212a}")]
    pub f47: STok,
    #[serde(rename = "K")]
    pub f48: STok,
    #[serde(rename = "k")]
    pub f49: STok,
    #[serde(rename = "\u{17f}")]
    pub f50: STok,
    #[serde(rename = "s")]
    pub f51: STok,
    #[serde(rename = "\u{feff}")]
    pub f52: STok,
    #[serde(rename = "\u{65e5}\u{672c}")]
    pub f53: STok,
    #[serde(rename = "\u{1f600}")]
    pub f54: STok,
    #[serde(rename = ",")]
    pub f55: STok,
    #[serde(rename = ":")]
    pub f56: STok,
    #[serde(rename = "__out")]
    pub f57: STok,
    #[serde(rename = "__k")]
    pub f58: STok,
    #[serde(rename = "_")]
    pub f59: STok,
    #[serde(rename = "serde")]
    pub f60: STok,
    #[serde(rename = "rename")]
    pub f61: STok,
    #[serde(rename = "self")]
    pub f62: STok,
    #[serde(rename = "value")]
    pub f63: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f64: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f65: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f66: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f67: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f68: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f69: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f70: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    pub f71: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnna")]
    pub f72: STok,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnb")]
    pub f73: STok,
}
#[derive(Serialize)]
pub struct SBig {
    pub f000: STok,
    pub f001: STok,
    pub f002: STok,
    pub f003: STok,
    pub f004: STok,
    pub f005: STok,
    pub f006: STok,
    pub f007: STok,
    pub f008: STok,
    pub f009: STok,
    pub f010: STok,
    pub f011: STok,
    pub f012: STok,
    pub f013: STok,
    pub f014: STok,
    pub f015: STok,
    pub f016: STok,
    pub f017: STok,
    pub f018: STok,
    pub f019: STok,
    pub f020: STok,
    pub f021: STok,
    pub f022: STok,
    pub f023: STok,
    pub f024: STok,
    pub f025: STok,
    pub f026: STok,
    pub f027: STok,
    pub f028: STok,
    pub f029: STok,
    pub f030: STok,
    pub f031: STok,
    pub f032: STok,
    pub f033: STok,
    pub f034: STok,
    pub f035: STok,
    pub f036: STok,
    pub f037: STok,
    pub f038: STok,
    pub f039: STok,
    pub f040: STok,
    pub f041: STok,
    pub f042: STok,
    pub f043: STok,
    pub f044: STok,
    pub f045: STok,
    pub f046: STok,
    pub f047: STok,
    pub f048: STok,
    pub f049: STok,
    pub f050: STok,
    pub f051: STok,
    pub f052: STok,
    pub f053: STok,
    pub f054: STok,
    pub f055: STok,
    pub f056: STok,
    pub f057: STok,
    pub f058: STok,
    pub f059: STok,
    pub f060: STok,
    pub f061: STok,
    pub f062: STok,
    pub f063: STok,
    pub f064: STok,
    pub f065: STok,
    pub f066: STok,
    pub f067: STok,
    pub f068: STok,
    pub f069: STok,
    pub f070: STok,
    pub f071: STok,
    pub f072: STok,
    pub f073: STok,
    pub f074: STok,
    pub f075: STok,
    pub f076: STok,
    pub f077: STok,
    pub f078: STok,
    pub f079: STok,
    pub f080: STok,
    pub f081: STok,
    pub f082: STok,
    pub f083: STok,
    pub f084: STok,
    pub f085: STok,
    pub f086: STok,
    pub f087: STok,
    pub f088: STok,
    pub f089: STok,
    pub f090: STok,
    pub f091: STok,
    pub f092: STok,
    pub f093: STok,
    pub f094: STok,
    pub f095: STok,
    pub f096: STok,
    pub f097: STok,
    pub f098: STok,
    pub f099: STok,
    pub f100: STok,
    pub f101: STok,
    pub f102: STok,
    pub f103: STok,
    pub f104: STok,
    pub f105: STok,
    pub f106: STok,
    pub f107: STok,
    pub f108: STok,
    pub f109: STok,
    pub f110: STok,
    pub f111: STok,
    pub f112: STok,
    pub f113: STok,
    pub f114: STok,
    pub f115: STok,
    pub f116: STok,
    pub f117: STok,
    pub f118: STok,
    pub f119: STok,
    pub f120: STok,
    pub f121: STok,
    pub f122: STok,
    pub f123: STok,
    pub f124: STok,
    pub f125: STok,
    pub f126: STok,
    pub f127: STok,
    pub f128: STok,
    pub f129: STok,
    pub f130: STok,
    pub f131: STok,
    pub f132: STok,
    pub f133: STok,
    pub f134: STok,
    pub f135: STok,
    pub f136: STok,
    pub f137: STok,
    pub f138: STok,
    pub f139: STok,
    pub f140: STok,
    pub f141: STok,
    pub f142: STok,
    pub f143: STok,
    pub f144: STok,
    pub f145: STok,
    pub f146: STok,
    pub f147: STok,
    pub f148: STok,
    pub f149: STok,
    pub f150: STok,
    pub f151: STok,
    pub f152: STok,
    pub f153: STok,
    pub f154: STok,
    pub f155: STok,
    pub f156: STok,
    pub f157: STok,
    pub f158: STok,
    pub f159: STok,
    pub f160: STok,
    pub f161: STok,
    pub f162: STok,
    pub f163: STok,
    pub f164: STok,
    pub f165: STok,
    pub f166: STok,
    pub f167: STok,
    pub f168: STok,
    pub f169: STok,
    pub f170: STok,
    pub f171: STok,
    pub f172: STok,
    pub f173: STok,
    pub f174: STok,
    pub f175: STok,
    pub f176: STok,
    pub f177: STok,
    pub f178: STok,
    pub f179: STok,
    pub f180: STok,
    pub f181: STok,
    pub f182: STok,
    pub f183: STok,
    pub f184: STok,
    pub f185: STok,
    pub f186: STok,
    pub f187: STok,
    pub f188: STok,
    pub f189: STok,
    pub f190: STok,
    pub f191: STok,
    pub f192: STok,
    pub f193: STok,
    pub f194: STok,
    pub f195: STok,
    pub f196: STok,
    pub f197: STok,
    pub f198: STok,
    pub f199: STok,
    pub f200: STok,
    pub f201: STok,
    pub f202: STok,
    pub f203: STok,
    pub f204: STok,
    pub f205: STok,
    pub f206: STok,
    pub f207: STok,
    pub f208: STok,
    pub f209: STok,
    pub f210: STok,
    pub f211: STok,
    pub f212: STok,
    pub f213: STok,
    pub f214: STok,
    pub f215: STok,
    pub f216: STok,
    pub f217: STok,
    pub f218: STok,
    pub f219: STok,
    pub f220: STok,
    pub f221: STok,
    pub f222: STok,
    pub f223: STok,
    pub f224: STok,
    pub f225: STok,
    pub f226: STok,
    pub f227: STok,
    pub f228: STok,
    pub f229: STok,
    pub f230: STok,
    pub f231: STok,
    pub f232: STok,
    pub f233: STok,
    pub f234: STok,
    pub f235: STok,
    pub f236: STok,
    pub f237: STok,
    pub f238: STok,
    pub f239: STok,
    pub f240: STok,
    pub f241: STok,
    pub f242: STok,
    pub f243: STok,
    pub f244: STok,
    pub f245: STok,
    pub f246: STok,
    pub f247: STok,
    pub f248: STok,
    pub f249: STok,
    pub f250: STok,
    pub f251: STok,
    pub f252: STok,
    pub f253: STok,
    pub f254: STok,
    pub f255: STok,
    pub f256: STok,
    pub f257: STok,
    pub f258: STok,
    pub f259: STok,
    pub f260: STok,
    pub f261: STok,
    pub f262: STok,
    pub f263: STok,
    pub f264: STok,
    pub f265: STok,
    pub f266: STok,
    pub f267: STok,
    pub f268: STok,
    pub f269: STok,
    pub f270: STok,
    pub f271: STok,
    pub f272: STok,
    pub f273: STok,
    pub f274: STok,
    pub f275: STok,
    pub f276: STok,
    pub f277: STok,
    pub f278: STok,
    pub f279: STok,
    pub f280: STok,
    pub f281: STok,
    pub f282: STok,
    pub f283: STok,
    pub f284: STok,
    pub f285: STok,
    pub f286: STok,
    pub f287: STok,
    pub f288: STok,
    pub f289: STok,
    pub f290: STok,
    pub f291: STok,
    pub f292: STok,
    pub f293: STok,
    pub f294: STok,
    pub f295: STok,
    pub f296: STok,
    pub f297: STok,
    pub f298: STok,
    pub f299: STok,
}
#[derive(Serialize, Deserialize)]
pub enum ENames {
    #[serde(rename = "r#x")]
    V0,
    #[serde(rename = "x")]
    V1,
    #[serde(rename = "r#")]
    V2,
    #[serde(rename = "r")]
    V3,
    #[serde(rename = " lead")]
    V4,
    #[serde(rename = "lead")]
    V5,
    #[serde(rename = "trail ")]
    V6,
    #[serde(rename = "trail")]
    V7,
    #[serde(rename = "\u{9}tab\u{9}")]
    V8,
    #[serde(rename = "tab")]
    V9,
    #[serde(rename = "line\u{a}break")]
    V10,
    #[serde(rename = "nul\u{0}")]
    V11,
    #[serde(rename = "nul")]
    V12,
    #[serde(rename = "\u{7f}")]
    V13,
    #[serde(rename = "a.b")]
    V14,
    #[serde(rename = "a-b")]
    V15,
    #[serde(rename = "a_b")]
    V16,
    #[serde(rename = "a/b")]
    V17,
    #[serde(rename = "a::b")]
    V18,
    #[serde(rename = "ab")]
    V19,
    #[serde(rename = "UPPER")]
    V20,
    #[serde(rename = "upper")]
    V21,
    #[serde(rename = "Upper")]
    V22,
    #[serde(rename = "Mixed Case")]
    V23,
    #[serde(rename = "mixedCase")]
    V24,
    #[serde(rename = "mixed_case")]
    V25,
    #[serde(rename = "0")]
    V26,
    #[serde(rename = "00")]
    V27,
    #[serde(rename = "123")]
    V28,
    #[serde(rename = "-1")]
    V29,
    #[serde(rename = "1.0")]
    V30,
    #[serde(rename = "true")]
    V31,
    #[serde(rename = "null")]
    V32,
    #[serde(rename = "$ref")]
    V33,
    #[serde(rename = "@type")]
    V34,
    #[serde(rename = "#")]
    V35,
    #[serde(rename = "[0]")]
    V36,
    #[serde(rename = "{}")]
    V37,
    #[serde(rename = "{0}")]
    V38,
    #[serde(rename = "%s")]
    V39,
    #[serde(rename = "\u{5c}")]
    V40,
    #[serde(rename = "\u{22}")]
    V41,
    #[serde(rename = "\u{5c}n")]
    V42,
    #[serde(rename = "\u{5c}u0041")]
    V43,
    #[serde(rename = "'")]
    V44,
    #[serde(rename = "\u{e9}")]
    V45,
    #[serde(rename = "e\u{301}")]
    V46,
    #[serde(rename = "\u{212a}")]
    V47,
    #[serde(rename = "K")]
    V48,
    #[serde(rename = "k")]
    V49,
    #[serde(rename = "\u{17f}")]
    V50,
    #[serde(rename = "s")]
    V51,
    #[serde(rename = "\u{feff}")]
    V52,
    #[serde(rename = "\u{65e5}\u{672c}")]
    V53,
    #[serde(rename = "\u{1f600}")]
    V54,
    #[serde(rename = ",")]
    V55,
    #[serde(rename = ":")]
    V56,
    #[serde(rename = "__out")]
    V57,
    #[serde(rename = "__k")]
    V58,
    #[serde(rename = "_")]
    V59,
    #[serde(rename = "serde")]
    V60,
    #[serde(rename = "rename")]
    V61,
    #[serde(rename = "self")]
    V62,
    #[serde(rename = "value")]
    V63,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V64,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V65,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V66,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V67,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V68,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V69,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V70,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn")]
    V71,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnna")]
    V72,
    #[serde(rename = "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnb")]
    V73,
}
#[derive(Serialize, Deserialize)]
pub enum EBig {
    V000,
    V001,
    V002,
    V003,
    V004,
    V005,
    V006,
    V007,
    V008,
    V009,
    V010,
    V011,
    V012,
    V013,
    V014,
    V015,
    V016,
    V017,
    V018,
    V019,
    V020,
    V021,
    V022,
    V023,
    V024,
    V025,
    V026,
    V027,
    V028,
    V029,
    V030,
    V031,
    V032,
    V033,
    V034,
    V035,
    V036,
    V037,
    V038,
    V039,
    V040,
    V041,
    V042,
    V043,
    V044,
    V045,
    V046,
    V047,
    V048,
    V049,
    V050,
    V051,
    V052,
    V053,
    V054,
    V055,
    V056,
    V057,
    V058,
    V059,
    V060,
    V061,
    V062,
    V063,
    V064,
    V065,
    V066,
    V067,
    V068,
    V069,
    V070,
    V071,
    V072,
    V073,
    V074,
    V075,
    V076,
    V077,
    V078,
    V079,
    V080,
    V081,
    V082,
    V083,
    V084,
    V085,
    V086,
    V087,
    V088,
    V089,
    V090,
    V091,
    V092,
    V093,
    V094,
    V095,
    V096,
    V097,
    V098,
    V099,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137,
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
    V270,
    V271,
    V272,
    V273,
    V274,
    V275,
    V276,
    V277,
    V278,
    V279,
    V280,
    V281,
    V282,
    V283,
    V284,
    V285,
    V286,
    V287,
    V288,
    V289,
    V290,
    V291,
    V292,
    V293,
    V294,
    V295,
    V296,
    V297,
    V298,
    V299,
}
