//! Derived types with very many variants and fields (written by tools/gen_types3.py).
use crate::types::*;
use crate::Rng;
use serdere::*;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Huge {
    V0,
    V1,
    V2,
    V3,
    V4,
    #[serde(rename = "v5")]
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    #[serde(rename = "v42")]
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    #[serde(rename = "v79")]
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    #[serde(rename = "v116")]
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137,
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    #[serde(rename = "v153")]
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    #[serde(rename = "v190")]
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    #[serde(rename = "v227")]
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    #[serde(rename = "v264")]
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
    V270,
    V271,
    V272,
    V273,
    V274,
    V275,
    V276,
    V277,
    V278,
    V279,
    V280,
    V281,
    V282,
    V283,
    V284,
    V285,
    V286,
    V287,
    V288,
    V289,
    #[serde(reindex = 70000)]
    V290,
    V291,
    V292,
    V293,
    V294,
    V295,
    V296,
    V297,
    V298,
    V299,
}
pub const HUGE: &[(Huge, &str, usize)] = &[
    (Huge::V0, "V0", 0),
    (Huge::V1, "V1", 1),
    (Huge::V2, "V2", 2),
    (Huge::V3, "V3", 3),
    (Huge::V4, "V4", 4),
    (Huge::V5, "v5", 5),
    (Huge::V6, "V6", 6),
    (Huge::V7, "V7", 7),
    (Huge::V8, "V8", 8),
    (Huge::V9, "V9", 9),
    (Huge::V10, "V10", 10),
    (Huge::V11, "V11", 11),
    (Huge::V12, "V12", 12),
    (Huge::V13, "V13", 13),
    (Huge::V14, "V14", 14),
    (Huge::V15, "V15", 15),
    (Huge::V16, "V16", 16),
    (Huge::V17, "V17", 17),
    (Huge::V18, "V18", 18),
    (Huge::V19, "V19", 19),
    (Huge::V20, "V20", 20),
    (Huge::V21, "V21", 21),
    (Huge::V22, "V22", 22),
    (Huge::V23, "V23", 23),
    (Huge::V24, "V24", 24),
    (Huge::V25, "V25", 25),
    (Huge::V26, "V26", 26),
    (Huge::V27, "V27", 27),
    (Huge::V28, "V28", 28),
    (Huge::V29, "V29", 29),
    (Huge::V30, "V30", 30),
    (Huge::V31, "V31", 31),
    (Huge::V32, "V32", 32),
    (Huge::V33, "V33", 33),
    (Huge::V34, "V34", 34),
    (Huge::V35, "V35", 35),
    (Huge::V36, "V36", 36),
    (Huge::V37, "V37", 37),
    (Huge::V38, "V38", 38),
    (Huge::V39, "V39", 39),
    (Huge::V40, "V40", 40),
    (Huge::V41, "V41", 41),
    (Huge::V42, "v42", 42),
    (Huge::V43, "V43", 43),
    (Huge::V44, "V44", 44),
    (Huge::V45, "V45", 45),
    (Huge::V46, "V46", 46),
    (Huge::V47, "V47", 47),
    (Huge::V48, "V48", 48),
    (Huge::V49, "V49", 49),
    (Huge::V50, "V50", 50),
    (Huge::V51, "V51", 51),
    (Huge::V52, "V52", 52),
    (Huge::V53, "V53", 53),
    (Huge::V54, "V54", 54),
    (Huge::V55, "V55", 55),
    (Huge::V56, "V56", 56),
    (Huge::V57, "V57", 57),
    (Huge::V58, "V58", 58),
    (Huge::V59, "V59", 59),
    (Huge::V60, "V60", 60),
    (Huge::V61, "V61", 61),
    (Huge::V62, "V62", 62),
    (Huge::V63, "V63", 63),
    (Huge::V64, "V64", 64),
    (Huge::V65, "V65", 65),
    (Huge::V66, "V66", 66),
    (Huge::V67, "V67", 67),
    (Huge::V68, "V68", 68),
    (Huge::V69, "V69", 69),
    (Huge::V70, "V70", 70),
    (Huge::V71, "V71", 71),
    (Huge::V72, "V72", 72),
    (Huge::V73, "V73", 73),
    (Huge::V74, "V74", 74),
    (Huge::V75, "V75", 75),
    (Huge::V76, "V76", 76),
    (Huge::V77, "V77", 77),
    (Huge::V78, "V78", 78),
    (Huge::V79, "v79", 79),
    (Huge::V80, "V80", 80),
    (Huge::V81, "V81", 81),
    (Huge::V82, "V82", 82),
    (Huge::V83, "V83", 83),
    (Huge::V84, "V84", 84),
    (Huge::V85, "V85", 85),
    (Huge::V86, "V86", 86),
    (Huge::V87, "V87", 87),
    (Huge::V88, "V88", 88),
    (Huge::V89, "V89", 89),
    (Huge::V90, "V90", 90),
    (Huge::V91, "V91", 91),
    (Huge::V92, "V92", 92),
    (Huge::V93, "V93", 93),
    (Huge::V94, "V94", 94),
    (Huge::V95, "V95", 95),
    (Huge::V96, "V96", 96),
    (Huge::V97, "V97", 97),
    (Huge::V98, "V98", 98),
    (Huge::V99, "V99", 99),
    (Huge::V100, "V100", 100),
    (Huge::V101, "V101", 101),
    (Huge::V102, "V102", 102),
    (Huge::V103, "V103", 103),
    (Huge::V104, "V104", 104),
    (Huge::V105, "V105", 105),
    (Huge::V106, "V106", 106),
    (Huge::V107, "V107", 107),
    (Huge::V108, "V108", 108),
    (Huge::V109, "V109", 109),
    (Huge::V110, "V110", 110),
    (Huge::V111, "V111", 111),
    (Huge::V112, "V112", 112),
    (Huge::V113, "V113", 113),
    (Huge::V114, "V114", 114),
    (Huge::V115, "V115", 115),
    (Huge::V116, "v116", 116),
    (Huge::V117, "V117", 117),
    (Huge::V118, "V118", 118),
    (Huge::V119, "V119", 119),
    (Huge::V120, "V120", 120),
    (Huge::V121, "V121", 121),
    (Huge::V122, "V122", 122),
    (Huge::V123, "V123", 123),
    (Huge::V124, "V124", 124),
    (Huge::V125, "V125", 125),
    (Huge::V126, "V126", 126),
    (Huge::V127, "V127", 127),
    (Huge::V128, "V128", 128),
    (Huge::V129, "V129", 129),
    (Huge::V130, "V130", 130),
    (Huge::V131, "V131", 131),
    (Huge::V132, "V132", 132),
    (Huge::V133, "V133", 133),
    (Huge::V134, "V134", 134),
    (Huge::V135, "V135", 135),
    (Huge::V136, "V136", 136),
    (Huge::V137, "V137", 137),
    (Huge::V138, "V138", 138),
    (Huge::V139, "V139", 139),
    (Huge::V140, "V140", 140),
    (Huge::V141, "V141", 141),
    (Huge::V142, "V142", 142),
    (Huge::V143, "V143", 143),
    (Huge::V144, "V144", 144),
    (Huge::V145, "V145", 145),
    (Huge::V146, "V146", 146),
    (Huge::V147, "V147", 147),
    (Huge::V148, "V148", 148),
    (Huge::V149, "V149", 149),
    (Huge::V150, "V150", 150),
    (Huge::V151, "V151", 151),
    (Huge::V152, "V152", 152),
    (Huge::V153, "v153", 153),
    (Huge::V154, "V154", 154),
    (Huge::V155, "V155", 155),
    (Huge::V156, "V156", 156),
    (Huge::V157, "V157", 157),
    (Huge::V158, "V158", 158),
    (Huge::V159, "V159", 159),
    (Huge::V160, "V160", 160),
    (Huge::V161, "V161", 161),
    (Huge::V162, "V162", 162),
    (Huge::V163, "V163", 163),
    (Huge::V164, "V164", 164),
    (Huge::V165, "V165", 165),
    (Huge::V166, "V166", 166),
    (Huge::V167, "V167", 167),
    (Huge::V168, "V168", 168),
    (Huge::V169, "V169", 169),
    (Huge::V170, "V170", 170),
    (Huge::V171, "V171", 171),
    (Huge::V172, "V172", 172),
    (Huge::V173, "V173", 173),
    (Huge::V174, "V174", 174),
    (Huge::V175, "V175", 175),
    (Huge::V176, "V176", 176),
    (Huge::V177, "V177", 177),
    (Huge::V178, "V178", 178),
    (Huge::V179, "V179", 179),
    (Huge::V180, "V180", 180),
    (Huge::V181, "V181", 181),
    (Huge::V182, "V182", 182),
    (Huge::V183, "V183", 183),
    (Huge::V184, "V184", 184),
    (Huge::V185, "V185", 185),
    (Huge::V186, "V186", 186),
    (Huge::V187, "V187", 187),
    (Huge::V188, "V188", 188),
    (Huge::V189, "V189", 189),
    (Huge::V190, "v190", 190),
    (Huge::V191, "V191", 191),
    (Huge::V192, "V192", 192),
    (Huge::V193, "V193", 193),
    (Huge::V194, "V194", 194),
    (Huge::V195, "V195", 195),
    (Huge::V196, "V196", 196),
    (Huge::V197, "V197", 197),
    (Huge::V198, "V198", 198),
    (Huge::V199, "V199", 199),
    (Huge::V200, "V200", 200),
    (Huge::V201, "V201", 201),
    (Huge::V202, "V202", 202),
    (Huge::V203, "V203", 203),
    (Huge::V204, "V204", 204),
    (Huge::V205, "V205", 205),
    (Huge::V206, "V206", 206),
    (Huge::V207, "V207", 207),
    (Huge::V208, "V208", 208),
    (Huge::V209, "V209", 209),
    (Huge::V210, "V210", 210),
    (Huge::V211, "V211", 211),
    (Huge::V212, "V212", 212),
    (Huge::V213, "V213", 213),
    (Huge::V214, "V214", 214),
    (Huge::V215, "V215", 215),
    (Huge::V216, "V216", 216),
    (Huge::V217, "V217", 217),
    (Huge::V218, "V218", 218),
    (Huge::V219, "V219", 219),
    (Huge::V220, "V220", 220),
    (Huge::V221, "V221", 221),
    (Huge::V222, "V222", 222),
    (Huge::V223, "V223", 223),
    (Huge::V224, "V224", 224),
    (Huge::V225, "V225", 225),
    (Huge::V226, "V226", 226),
    (Huge::V227, "v227", 227),
    (Huge::V228, "V228", 228),
    (Huge::V229, "V229", 229),
    (Huge::V230, "V230", 230),
    (Huge::V231, "V231", 231),
    (Huge::V232, "V232", 232),
    (Huge::V233, "V233", 233),
    (Huge::V234, "V234", 234),
    (Huge::V235, "V235", 235),
    (Huge::V236, "V236", 236),
    (Huge::V237, "V237", 237),
    (Huge::V238, "V238", 238),
    (Huge::V239, "V239", 239),
    (Huge::V240, "V240", 240),
    (Huge::V241, "V241", 241),
    (Huge::V242, "V242", 242),
    (Huge::V243, "V243", 243),
    (Huge::V244, "V244", 244),
    (Huge::V245, "V245", 245),
    (Huge::V246, "V246", 246),
    (Huge::V247, "V247", 247),
    (Huge::V248, "V248", 248),
    (Huge::V249, "V249", 249),
    (Huge::V250, "V250", 250),
    (Huge::V251, "V251", 251),
    (Huge::V252, "V252", 252),
    (Huge::V253, "V253", 253),
    (Huge::V254, "V254", 254),
    (Huge::V255, "V255", 255),
    (Huge::V256, "V256", 256),
    (Huge::V257, "V257", 257),
    (Huge::V258, "V258", 258),
    (Huge::V259, "V259", 259),
    (Huge::V260, "V260", 260),
    (Huge::V261, "V261", 261),
    (Huge::V262, "V262", 262),
    (Huge::V263, "V263", 263),
    (Huge::V264, "v264", 264),
    (Huge::V265, "V265", 265),
    (Huge::V266, "V266", 266),
    (Huge::V267, "V267", 267),
    (Huge::V268, "V268", 268),
    (Huge::V269, "V269", 269),
    (Huge::V270, "V270", 270),
    (Huge::V271, "V271", 271),
    (Huge::V272, "V272", 272),
    (Huge::V273, "V273", 273),
    (Huge::V274, "V274", 274),
    (Huge::V275, "V275", 275),
    (Huge::V276, "V276", 276),
    (Huge::V277, "V277", 277),
    (Huge::V278, "V278", 278),
    (Huge::V279, "V279", 279),
    (Huge::V280, "V280", 280),
    (Huge::V281, "V281", 281),
    (Huge::V282, "V282", 282),
    (Huge::V283, "V283", 283),
    (Huge::V284, "V284", 284),
    (Huge::V285, "V285", 285),
    (Huge::V286, "V286", 286),
    (Huge::V287, "V287", 287),
    (Huge::V288, "V288", 288),
    (Huge::V289, "V289", 289),
    (Huge::V290, "V290", 70000),
    (Huge::V291, "V291", 291),
    (Huge::V292, "V292", 292),
    (Huge::V293, "V293", 293),
    (Huge::V294, "V294", 294),
    (Huge::V295, "V295", 295),
    (Huge::V296, "V296", 296),
    (Huge::V297, "V297", 297),
    (Huge::V298, "V298", 298),
    (Huge::V299, "V299", 299),
];
impl Ty for Huge {
    fn gen(r: &mut Rng) -> Self {
        let k = if r.bool() { *r.pick(&[0, 1, 127, 128, 129, 254, 255, 256, 257, 258, 299]) } else { r.below(HUGE.len()) };
        HUGE[k].0
    }
    fn model(&self) -> M {
        let x = HUGE.iter().find(|x| x.0 == *self).unwrap();
        M::Tag(x.1.into(), x.2)
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub enum HugeData {
    D0,
    D1 { x: u16 },
    D2,
    D3,
    D4,
    D5 { x: u16 },
    D6,
    #[serde(transparent)]
    D7(P2),
    D8,
    D9 { x: u16 },
    D10,
    D11,
    D12,
    D13 { x: u16 },
    D14,
    #[serde(transparent)]
    D15(P2),
    D16,
    D17 { x: u16 },
    D18,
    D19,
    D20,
    D21 { x: u16 },
    D22,
    #[serde(transparent)]
    D23(P2),
    D24,
    D25 { x: u16 },
    D26,
    D27,
    D28,
    D29 { x: u16 },
    D30,
    #[serde(transparent)]
    D31(P2),
    D32,
    D33 { x: u16 },
    D34,
    D35,
    D36,
    D37 { x: u16 },
    D38,
    #[serde(transparent)]
    D39(P2),
    D40,
    D41 { x: u16 },
    D42,
    D43,
    D44,
    D45 { x: u16 },
    D46,
    #[serde(transparent)]
    D47(P2),
    D48,
    D49 { x: u16 },
    D50,
    D51,
    D52,
    D53 { x: u16 },
    D54,
    #[serde(transparent)]
    D55(P2),
    D56,
    D57 { x: u16 },
    D58,
    D59,
    D60,
    D61 { x: u16 },
    D62,
    #[serde(transparent)]
    D63(P2),
    D64,
    D65 { x: u16 },
    D66,
    D67,
    D68,
    D69 { x: u16 },
    D70,
    #[serde(transparent)]
    D71(P2),
    D72,
    D73 { x: u16 },
    D74,
    D75,
    D76,
    D77 { x: u16 },
    D78,
    #[serde(transparent)]
    D79(P2),
    D80,
    D81 { x: u16 },
    D82,
    D83,
    D84,
    D85 { x: u16 },
    D86,
    #[serde(transparent)]
    D87(P2),
    D88,
    D89 { x: u16 },
    D90,
    D91,
    D92,
    D93 { x: u16 },
    D94,
    #[serde(transparent)]
    D95(P2),
    D96,
    D97 { x: u16 },
    D98,
    D99,
    D100,
    D101 { x: u16 },
    D102,
    #[serde(transparent)]
    D103(P2),
    D104,
    D105 { x: u16 },
    D106,
    D107,
    D108,
    D109 { x: u16 },
    D110,
    #[serde(transparent)]
    D111(P2),
    D112,
    D113 { x: u16 },
    D114,
    D115,
    D116,
    D117 { x: u16 },
    D118,
    #[serde(transparent)]
    D119(P2),
    D120,
    D121 { x: u16 },
    D122,
    D123,
    D124,
    D125 { x: u16 },
    D126,
    #[serde(transparent)]
    D127(P2),
    D128,
    D129 { x: u16 },
    D130,
    D131,
    D132,
    D133 { x: u16 },
    D134,
    #[serde(transparent)]
    D135(P2),
    D136,
    D137 { x: u16 },
    D138,
    D139,
    D140,
    D141 { x: u16 },
    D142,
    #[serde(transparent)]
    D143(P2),
    D144,
    D145 { x: u16 },
    D146,
    D147,
    D148,
    D149 { x: u16 },
    D150,
    #[serde(transparent)]
    D151(P2),
    D152,
    D153 { x: u16 },
    D154,
    D155,
    D156,
    D157 { x: u16 },
    D158,
    #[serde(transparent)]
    D159(P2),
    D160,
    D161 { x: u16 },
    D162,
    D163,
    D164,
    D165 { x: u16 },
    D166,
    #[serde(transparent)]
    D167(P2),
    D168,
    D169 { x: u16 },
    D170,
    D171,
    D172,
    D173 { x: u16 },
    D174,
    #[serde(transparent)]
    D175(P2),
    D176,
    D177 { x: u16 },
    D178,
    D179,
    D180,
    D181 { x: u16 },
    D182,
    #[serde(transparent)]
    D183(P2),
    D184,
    D185 { x: u16 },
    D186,
    D187,
    D188,
    D189 { x: u16 },
    D190,
    #[serde(transparent)]
    D191(P2),
    D192,
    D193 { x: u16 },
    D194,
    D195,
    D196,
    D197 { x: u16 },
    D198,
    #[serde(transparent)]
    D199(P2),
    D200,
    D201 { x: u16 },
    D202,
    D203,
    D204,
    D205 { x: u16 },
    D206,
    #[serde(transparent)]
    D207(P2),
    D208,
    D209 { x: u16 },
    D210,
    D211,
    D212,
    D213 { x: u16 },
    D214,
    #[serde(transparent)]
    D215(P2),
    D216,
    D217 { x: u16 },
    D218,
    D219,
    D220,
    D221 { x: u16 },
    D222,
    #[serde(transparent)]
    D223(P2),
    D224,
    D225 { x: u16 },
    D226,
    D227,
    D228,
    D229 { x: u16 },
    D230,
    #[serde(transparent)]
    D231(P2),
    D232,
    D233 { x: u16 },
    D234,
    D235,
    D236,
    D237 { x: u16 },
    D238,
    #[serde(transparent)]
    D239(P2),
    D240,
    D241 { x: u16 },
    D242,
    D243,
    D244,
    D245 { x: u16 },
    D246,
    #[serde(transparent)]
    D247(P2),
    D248,
    D249 { x: u16 },
    D250,
    D251,
    D252,
    D253 { x: u16 },
    D254,
    #[serde(transparent)]
    D255(P2),
    D256,
    D257 { x: u16 },
    D258,
    D259,
    D260,
    D261 { x: u16 },
    D262,
    #[serde(transparent)]
    D263(P2),
}
impl Ty for HugeData {
    fn gen(r: &mut Rng) -> Self {
        let k = if r.bool() { *r.pick(&[0, 1, 125, 127, 128, 129, 253, 255, 256, 257, 261, 263]) } else { r.below(264) };
        match k {
            0 => HugeData::D0,
            1 => HugeData::D1 { x: Ty::gen(r) },
            2 => HugeData::D2,
            3 => HugeData::D3,
            4 => HugeData::D4,
            5 => HugeData::D5 { x: Ty::gen(r) },
            6 => HugeData::D6,
            7 => HugeData::D7(Ty::gen(r)),
            8 => HugeData::D8,
            9 => HugeData::D9 { x: Ty::gen(r) },
            10 => HugeData::D10,
            11 => HugeData::D11,
            12 => HugeData::D12,
            13 => HugeData::D13 { x: Ty::gen(r) },
            14 => HugeData::D14,
            15 => HugeData::D15(Ty::gen(r)),
            16 => HugeData::D16,
            17 => HugeData::D17 { x: Ty::gen(r) },
            18 => HugeData::D18,
            19 => HugeData::D19,
            20 => HugeData::D20,
            21 => HugeData::D21 { x: Ty::gen(r) },
            22 => HugeData::D22,
            23 => HugeData::D23(Ty::gen(r)),
            24 => HugeData::D24,
            25 => HugeData::D25 { x: Ty::gen(r) },
            26 => HugeData::D26,
            27 => HugeData::D27,
            28 => HugeData::D28,
            29 => HugeData::D29 { x: Ty::gen(r) },
            30 => HugeData::D30,
            31 => HugeData::D31(Ty::gen(r)),
            32 => HugeData::D32,
            33 => HugeData::D33 { x: Ty::gen(r) },
            34 => HugeData::D34,
            35 => HugeData::D35,
            36 => HugeData::D36,
            37 => HugeData::D37 { x: Ty::gen(r) },
            38 => HugeData::D38,
            39 => HugeData::D39(Ty::gen(r)),
            40 => HugeData::D40,
            41 => HugeData::D41 { x: Ty::gen(r) },
            42 => HugeData::D42,
            43 => HugeData::D43,
            44 => HugeData::D44,
            45 => HugeData::D45 { x: Ty::gen(r) },
            46 => HugeData::D46,
            47 => HugeData::D47(Ty::gen(r)),
            48 => HugeData::D48,
            49 => HugeData::D49 { x: Ty::gen(r) },
            50 => HugeData::D50,
            51 => HugeData::D51,
            52 => HugeData::D52,
            53 => HugeData::D53 { x: Ty::gen(r) },
            54 => HugeData::D54,
            55 => HugeData::D55(Ty::gen(r)),
            56 => HugeData::D56,
            57 => HugeData::D57 { x: Ty::gen(r) },
            58 => HugeData::D58,
            59 => HugeData::D59,
            60 => HugeData::D60,
            61 => HugeData::D61 { x: Ty::gen(r) },
            62 => HugeData::D62,
            63 => HugeData::D63(Ty::gen(r)),
            64 => HugeData::D64,
            65 => HugeData::D65 { x: Ty::gen(r) },
            66 => HugeData::D66,
            67 => HugeData::D67,
            68 => HugeData::D68,
            69 => HugeData::D69 { x: Ty::gen(r) },
            70 => HugeData::D70,
            71 => HugeData::D71(Ty::gen(r)),
            72 => HugeData::D72,
            73 => HugeData::D73 { x: Ty::gen(r) },
            74 => HugeData::D74,
            75 => HugeData::D75,
            76 => HugeData::D76,
            77 => HugeData::D77 { x: Ty::gen(r) },
            78 => HugeData::D78,
            79 => HugeData::D79(Ty::gen(r)),
            80 => HugeData::D80,
            81 => HugeData::D81 { x: Ty::gen(r) },
            82 => HugeData::D82,
            83 => HugeData::D83,
            84 => HugeData::D84,
            85 => HugeData::D85 { x: Ty::gen(r) },
            86 => HugeData::D86,
            87 => HugeData::D87(Ty::gen(r)),
            88 => HugeData::D88,
            89 => HugeData::D89 { x: Ty::gen(r) },
            90 => HugeData::D90,
            91 => HugeData::D91,
            92 => HugeData::D92,
            93 => HugeData::D93 { x: Ty::gen(r) },
            94 => HugeData::D94,
            95 => HugeData::D95(Ty::gen(r)),
            96 => HugeData::D96,
            97 => HugeData::D97 { x: Ty::gen(r) },
            98 => HugeData::D98,
            99 => HugeData::D99,
            100 => HugeData::D100,
            101 => HugeData::D101 { x: Ty::gen(r) },
            102 => HugeData::D102,
            103 => HugeData::D103(Ty::gen(r)),
            104 => HugeData::D104,
            105 => HugeData::D105 { x: Ty::gen(r) },
            106 => HugeData::D106,
            107 => HugeData::D107,
            108 => HugeData::D108,
            109 => HugeData::D109 { x: Ty::gen(r) },
            110 => HugeData::D110,
            111 => HugeData::D111(Ty::gen(r)),
            112 => HugeData::D112,
            113 => HugeData::D113 { x: Ty::gen(r) },
            114 => HugeData::D114,
            115 => HugeData::D115,
            116 => HugeData::D116,
            117 => HugeData::D117 { x: Ty::gen(r) },
            118 => HugeData::D118,
            119 => HugeData::D119(Ty::gen(r)),
            120 => HugeData::D120,
            121 => HugeData::D121 { x: Ty::gen(r) },
            122 => HugeData::D122,
            123 => HugeData::D123,
            124 => HugeData::D124,
            125 => HugeData::D125 { x: Ty::gen(r) },
            126 => HugeData::D126,
            127 => HugeData::D127(Ty::gen(r)),
            128 => HugeData::D128,
            129 => HugeData::D129 { x: Ty::gen(r) },
            130 => HugeData::D130,
            131 => HugeData::D131,
            132 => HugeData::D132,
            133 => HugeData::D133 { x: Ty::gen(r) },
            134 => HugeData::D134,
            135 => HugeData::D135(Ty::gen(r)),
            136 => HugeData::D136,
            137 => HugeData::D137 { x: Ty::gen(r) },
            138 => HugeData::D138,
            139 => HugeData::D139,
            140 => HugeData::D140,
            141 => HugeData::D141 { x: Ty::gen(r) },
            142 => HugeData::D142,
            143 => HugeData::D143(Ty::gen(r)),
            144 => HugeData::D144,
            145 => HugeData::D145 { x: Ty::gen(r) },
            146 => HugeData::D146,
            147 => HugeData::D147,
            148 => HugeData::D148,
            149 => HugeData::D149 { x: Ty::gen(r) },
            150 => HugeData::D150,
            151 => HugeData::D151(Ty::gen(r)),
            152 => HugeData::D152,
            153 => HugeData::D153 { x: Ty::gen(r) },
            154 => HugeData::D154,
            155 => HugeData::D155,
            156 => HugeData::D156,
            157 => HugeData::D157 { x: Ty::gen(r) },
            158 => HugeData::D158,
            159 => HugeData::D159(Ty::gen(r)),
            160 => HugeData::D160,
            161 => HugeData::D161 { x: Ty::gen(r) },
            162 => HugeData::D162,
            163 => HugeData::D163,
            164 => HugeData::D164,
            165 => HugeData::D165 { x: Ty::gen(r) },
            166 => HugeData::D166,
            167 => HugeData::D167(Ty::gen(r)),
            168 => HugeData::D168,
            169 => HugeData::D169 { x: Ty::gen(r) },
            170 => HugeData::D170,
            171 => HugeData::D171,
            172 => HugeData::D172,
            173 => HugeData::D173 { x: Ty::gen(r) },
            174 => HugeData::D174,
            175 => HugeData::D175(Ty::gen(r)),
            176 => HugeData::D176,
            177 => HugeData::D177 { x: Ty::gen(r) },
            178 => HugeData::D178,
            179 => HugeData::D179,
            180 => HugeData::D180,
            181 => HugeData::D181 { x: Ty::gen(r) },
            182 => HugeData::D182,
            183 => HugeData::D183(Ty::gen(r)),
            184 => HugeData::D184,
            185 => HugeData::D185 { x: Ty::gen(r) },
            186 => HugeData::D186,
            187 => HugeData::D187,
            188 => HugeData::D188,
            189 => HugeData::D189 { x: Ty::gen(r) },
            190 => HugeData::D190,
            191 => HugeData::D191(Ty::gen(r)),
            192 => HugeData::D192,
            193 => HugeData::D193 { x: Ty::gen(r) },
            194 => HugeData::D194,
            195 => HugeData::D195,
            196 => HugeData::D196,
            197 => HugeData::D197 { x: Ty::gen(r) },
            198 => HugeData::D198,
            199 => HugeData::D199(Ty::gen(r)),
            200 => HugeData::D200,
            201 => HugeData::D201 { x: Ty::gen(r) },
            202 => HugeData::D202,
            203 => HugeData::D203,
            204 => HugeData::D204,
            205 => HugeData::D205 { x: Ty::gen(r) },
            206 => HugeData::D206,
            207 => HugeData::D207(Ty::gen(r)),
            208 => HugeData::D208,
            209 => HugeData::D209 { x: Ty::gen(r) },
            210 => HugeData::D210,
            211 => HugeData::D211,
            212 => HugeData::D212,
            213 => HugeData::D213 { x: Ty::gen(r) },
            214 => HugeData::D214,
            215 => HugeData::D215(Ty::gen(r)),
            216 => HugeData::D216,
            217 => HugeData::D217 { x: Ty::gen(r) },
            218 => HugeData::D218,
            219 => HugeData::D219,
            220 => HugeData::D220,
            221 => HugeData::D221 { x: Ty::gen(r) },
            222 => HugeData::D222,
            223 => HugeData::D223(Ty::gen(r)),
            224 => HugeData::D224,
            225 => HugeData::D225 { x: Ty::gen(r) },
            226 => HugeData::D226,
            227 => HugeData::D227,
            228 => HugeData::D228,
            229 => HugeData::D229 { x: Ty::gen(r) },
            230 => HugeData::D230,
            231 => HugeData::D231(Ty::gen(r)),
            232 => HugeData::D232,
            233 => HugeData::D233 { x: Ty::gen(r) },
            234 => HugeData::D234,
            235 => HugeData::D235,
            236 => HugeData::D236,
            237 => HugeData::D237 { x: Ty::gen(r) },
            238 => HugeData::D238,
            239 => HugeData::D239(Ty::gen(r)),
            240 => HugeData::D240,
            241 => HugeData::D241 { x: Ty::gen(r) },
            242 => HugeData::D242,
            243 => HugeData::D243,
            244 => HugeData::D244,
            245 => HugeData::D245 { x: Ty::gen(r) },
            246 => HugeData::D246,
            247 => HugeData::D247(Ty::gen(r)),
            248 => HugeData::D248,
            249 => HugeData::D249 { x: Ty::gen(r) },
            250 => HugeData::D250,
            251 => HugeData::D251,
            252 => HugeData::D252,
            253 => HugeData::D253 { x: Ty::gen(r) },
            254 => HugeData::D254,
            255 => HugeData::D255(Ty::gen(r)),
            256 => HugeData::D256,
            257 => HugeData::D257 { x: Ty::gen(r) },
            258 => HugeData::D258,
            259 => HugeData::D259,
            260 => HugeData::D260,
            261 => HugeData::D261 { x: Ty::gen(r) },
            262 => HugeData::D262,
            _ => HugeData::D263(Ty::gen(r)),
        }
    }
    fn model(&self) -> M {
        M::Obj(match self {
            HugeData::D0 => vec![tag("type", "D0", 0)],
            HugeData::D1 { x } => vec![tag("type", "D1", 1), req("x", x)],
            HugeData::D2 => vec![tag("type", "D2", 2)],
            HugeData::D3 => vec![tag("type", "D3", 3)],
            HugeData::D4 => vec![tag("type", "D4", 4)],
            HugeData::D5 { x } => vec![tag("type", "D5", 5), req("x", x)],
            HugeData::D6 => vec![tag("type", "D6", 6)],
            HugeData::D7(p) => { let mut f = vec![tag("type", "D7", 7)]; f.extend(p.fields()); f }
            HugeData::D8 => vec![tag("type", "D8", 8)],
            HugeData::D9 { x } => vec![tag("type", "D9", 9), req("x", x)],
            HugeData::D10 => vec![tag("type", "D10", 10)],
            HugeData::D11 => vec![tag("type", "D11", 11)],
            HugeData::D12 => vec![tag("type", "D12", 12)],
            HugeData::D13 { x } => vec![tag("type", "D13", 13), req("x", x)],
            HugeData::D14 => vec![tag("type", "D14", 14)],
            HugeData::D15(p) => { let mut f = vec![tag("type", "D15", 15)]; f.extend(p.fields()); f }
            HugeData::D16 => vec![tag("type", "D16", 16)],
            HugeData::D17 { x } => vec![tag("type", "D17", 17), req("x", x)],
            HugeData::D18 => vec![tag("type", "D18", 18)],
            HugeData::D19 => vec![tag("type", "D19", 19)],
            HugeData::D20 => vec![tag("type", "D20", 20)],
            HugeData::D21 { x } => vec![tag("type", "D21", 21), req("x", x)],
            HugeData::D22 => vec![tag("type", "D22", 22)],
            HugeData::D23(p) => { let mut f = vec![tag("type", "D23", 23)]; f.extend(p.fields()); f }
            HugeData::D24 => vec![tag("type", "D24", 24)],
            HugeData::D25 { x } => vec![tag("type", "D25", 25), req("x", x)],
            HugeData::D26 => vec![tag("type", "D26", 26)],
            HugeData::D27 => vec![tag("type", "D27", 27)],
            HugeData::D28 => vec![tag("type", "D28", 28)],
            HugeData::D29 { x } => vec![tag("type", "D29", 29), req("x", x)],
            HugeData::D30 => vec![tag("type", "D30", 30)],
            HugeData::D31(p) => { let mut f = vec![tag("type", "D31", 31)]; f.extend(p.fields()); f }
            HugeData::D32 => vec![tag("type", "D32", 32)],
            HugeData::D33 { x } => vec![tag("type", "D33", 33), req("x", x)],
            HugeData::D34 => vec![tag("type", "D34", 34)],
            HugeData::D35 => vec![tag("type", "D35", 35)],
            HugeData::D36 => vec![tag("type", "D36", 36)],
            HugeData::D37 { x } => vec![tag("type", "D37", 37), req("x", x)],
            HugeData::D38 => vec![tag("type", "D38", 38)],
            HugeData::D39(p) => { let mut f = vec![tag("type", "D39", 39)]; f.extend(p.fields()); f }
            HugeData::D40 => vec![tag("type", "D40", 40)],
            HugeData::D41 { x } => vec![tag("type", "D41", 41), req("x", x)],
            HugeData::D42 => vec![tag("type", "D42", 42)],
            HugeData::D43 => vec![tag("type", "D43", 43)],
            HugeData::D44 => vec![tag("type", "D44", 44)],
            HugeData::D45 { x } => vec![tag("type", "D45", 45), req("x", x)],
            HugeData::D46 => vec![tag("type", "D46", 46)],
            HugeData::D47(p) => { let mut f = vec![tag("type", "D47", 47)]; f.extend(p.fields()); f }
            HugeData::D48 => vec![tag("type", "D48", 48)],
            HugeData::D49 { x } => vec![tag("type", "D49", 49), req("x", x)],
            HugeData::D50 => vec![tag("type", "D50", 50)],
            HugeData::D51 => vec![tag("type", "D51", 51)],
            HugeData::D52 => vec![tag("type", "D52", 52)],
            HugeData::D53 { x } => vec![tag("type", "D53", 53), req("x", x)],
            HugeData::D54 => vec![tag("type", "D54", 54)],
            HugeData::D55(p) => { let mut f = vec![tag("type", "D55", 55)]; f.extend(p.fields()); f }
            HugeData::D56 => vec![tag("type", "D56", 56)],
            HugeData::D57 { x } => vec![tag("type", "D57", 57), req("x", x)],
            HugeData::D58 => vec![tag("type", "D58", 58)],
            HugeData::D59 => vec![tag("type", "D59", 59)],
            HugeData::D60 => vec![tag("type", "D60", 60)],
            HugeData::D61 { x } => vec![tag("type", "D61", 61), req("x", x)],
            HugeData::D62 => vec![tag("type", "D62", 62)],
            HugeData::D63(p) => { let mut f = vec![tag("type", "D63", 63)]; f.extend(p.fields()); f }
            HugeData::D64 => vec![tag("type", "D64", 64)],
            HugeData::D65 { x } => vec![tag("type", "D65", 65), req("x", x)],
            HugeData::D66 => vec![tag("type", "D66", 66)],
            HugeData::D67 => vec![tag("type", "D67", 67)],
            HugeData::D68 => vec![tag("type", "D68", 68)],
            HugeData::D69 { x } => vec![tag("type", "D69", 69), req("x", x)],
            HugeData::D70 => vec![tag("type", "D70", 70)],
            HugeData::D71(p) => { let mut f = vec![tag("type", "D71", 71)]; f.extend(p.fields()); f }
            HugeData::D72 => vec![tag("type", "D72", 72)],
            HugeData::D73 { x } => vec![tag("type", "D73", 73), req("x", x)],
            HugeData::D74 => vec![tag("type", "D74", 74)],
            HugeData::D75 => vec![tag("type", "D75", 75)],
            HugeData::D76 => vec![tag("type", "D76", 76)],
            HugeData::D77 { x } => vec![tag("type", "D77", 77), req("x", x)],
            HugeData::D78 => vec![tag("type", "D78", 78)],
            HugeData::D79(p) => { let mut f = vec![tag("type", "D79", 79)]; f.extend(p.fields()); f }
            HugeData::D80 => vec![tag("type", "D80", 80)],
            HugeData::D81 { x } => vec![tag("type", "D81", 81), req("x", x)],
            HugeData::D82 => vec![tag("type", "D82", 82)],
            HugeData::D83 => vec![tag("type", "D83", 83)],
            HugeData::D84 => vec![tag("type", "D84", 84)],
            HugeData::D85 { x } => vec![tag("type", "D85", 85), req("x", x)],
            HugeData::D86 => vec![tag("type", "D86", 86)],
            HugeData::D87(p) => { let mut f = vec![tag("type", "D87", 87)]; f.extend(p.fields()); f }
            HugeData::D88 => vec![tag("type", "D88", 88)],
            HugeData::D89 { x } => vec![tag("type", "D89", 89), req("x", x)],
            HugeData::D90 => vec![tag("type", "D90", 90)],
            HugeData::D91 => vec![tag("type", "D91", 91)],
            HugeData::D92 => vec![tag("type", "D92", 92)],
            HugeData::D93 { x } => vec![tag("type", "D93", 93), req("x", x)],
            HugeData::D94 => vec![tag("type", "D94", 94)],
            HugeData::D95(p) => { let mut f = vec![tag("type", "D95", 95)]; f.extend(p.fields()); f }
            HugeData::D96 => vec![tag("type", "D96", 96)],
            HugeData::D97 { x } => vec![tag("type", "D97", 97), req("x", x)],
            HugeData::D98 => vec![tag("type", "D98", 98)],
            HugeData::D99 => vec![tag("type", "D99", 99)],
            HugeData::D100 => vec![tag("type", "D100", 100)],
            HugeData::D101 { x } => vec![tag("type", "D101", 101), req("x", x)],
            HugeData::D102 => vec![tag("type", "D102", 102)],
            HugeData::D103(p) => { let mut f = vec![tag("type", "D103", 103)]; f.extend(p.fields()); f }
            HugeData::D104 => vec![tag("type", "D104", 104)],
            HugeData::D105 { x } => vec![tag("type", "D105", 105), req("x", x)],
            HugeData::D106 => vec![tag("type", "D106", 106)],
            HugeData::D107 => vec![tag("type", "D107", 107)],
            HugeData::D108 => vec![tag("type", "D108", 108)],
            HugeData::D109 { x } => vec![tag("type", "D109", 109), req("x", x)],
            HugeData::D110 => vec![tag("type", "D110", 110)],
            HugeData::D111(p) => { let mut f = vec![tag("type", "D111", 111)]; f.extend(p.fields()); f }
            HugeData::D112 => vec![tag("type", "D112", 112)],
            HugeData::D113 { x } => vec![tag("type", "D113", 113), req("x", x)],
            HugeData::D114 => vec![tag("type", "D114", 114)],
            HugeData::D115 => vec![tag("type", "D115", 115)],
            HugeData::D116 => vec![tag("type", "D116", 116)],
            HugeData::D117 { x } => vec![tag("type", "D117", 117), req("x", x)],
            HugeData::D118 => vec![tag("type", "D118", 118)],
            HugeData::D119(p) => { let mut f = vec![tag("type", "D119", 119)]; f.extend(p.fields()); f }
            HugeData::D120 => vec![tag("type", "D120", 120)],
            HugeData::D121 { x } => vec![tag("type", "D121", 121), req("x", x)],
            HugeData::D122 => vec![tag("type", "D122", 122)],
            HugeData::D123 => vec![tag("type", "D123", 123)],
            HugeData::D124 => vec![tag("type", "D124", 124)],
            HugeData::D125 { x } => vec![tag("type", "D125", 125), req("x", x)],
            HugeData::D126 => vec![tag("type", "D126", 126)],
            HugeData::D127(p) => { let mut f = vec![tag("type", "D127", 127)]; f.extend(p.fields()); f }
            HugeData::D128 => vec![tag("type", "D128", 128)],
            HugeData::D129 { x } => vec![tag("type", "D129", 129), req("x", x)],
            HugeData::D130 => vec![tag("type", "D130", 130)],
            HugeData::D131 => vec![tag("type", "D131", 131)],
            HugeData::D132 => vec![tag("type", "D132", 132)],
            HugeData::D133 { x } => vec![tag("type", "D133", 133), req("x", x)],
            HugeData::D134 => vec![tag("type", "D134", 134)],
            HugeData::D135(p) => { let mut f = vec![tag("type", "D135", 135)]; f.extend(p.fields()); f }
            HugeData::D136 => vec![tag("type", "D136", 136)],
            HugeData::D137 { x } => vec![tag("type", "D137", 137), req("x", x)],
            HugeData::D138 => vec![tag("type", "D138", 138)],
            HugeData::D139 => vec![tag("type", "D139", 139)],
            HugeData::D140 => vec![tag("type", "D140", 140)],
            HugeData::D141 { x } => vec![tag("type", "D141", 141), req("x", x)],
            HugeData::D142 => vec![tag("type", "D142", 142)],
            HugeData::D143(p) => { let mut f = vec![tag("type", "D143", 143)]; f.extend(p.fields()); f }
            HugeData::D144 => vec![tag("type", "D144", 144)],
            HugeData::D145 { x } => vec![tag("type", "D145", 145), req("x", x)],
            HugeData::D146 => vec![tag("type", "D146", 146)],
            HugeData::D147 => vec![tag("type", "D147", 147)],
            HugeData::D148 => vec![tag("type", "D148", 148)],
            HugeData::D149 { x } => vec![tag("type", "D149", 149), req("x", x)],
            HugeData::D150 => vec![tag("type", "D150", 150)],
            HugeData::D151(p) => { let mut f = vec![tag("type", "D151", 151)]; f.extend(p.fields()); f }
            HugeData::D152 => vec![tag("type", "D152", 152)],
            HugeData::D153 { x } => vec![tag("type", "D153", 153), req("x", x)],
            HugeData::D154 => vec![tag("type", "D154", 154)],
            HugeData::D155 => vec![tag("type", "D155", 155)],
            HugeData::D156 => vec![tag("type", "D156", 156)],
            HugeData::D157 { x } => vec![tag("type", "D157", 157), req("x", x)],
            HugeData::D158 => vec![tag("type", "D158", 158)],
            HugeData::D159(p) => { let mut f = vec![tag("type", "D159", 159)]; f.extend(p.fields()); f }
            HugeData::D160 => vec![tag("type", "D160", 160)],
            HugeData::D161 { x } => vec![tag("type", "D161", 161), req("x", x)],
            HugeData::D162 => vec![tag("type", "D162", 162)],
            HugeData::D163 => vec![tag("type", "D163", 163)],
            HugeData::D164 => vec![tag("type", "D164", 164)],
            HugeData::D165 { x } => vec![tag("type", "D165", 165), req("x", x)],
            HugeData::D166 => vec![tag("type", "D166", 166)],
            HugeData::D167(p) => { let mut f = vec![tag("type", "D167", 167)]; f.extend(p.fields()); f }
            HugeData::D168 => vec![tag("type", "D168", 168)],
            HugeData::D169 { x } => vec![tag("type", "D169", 169), req("x", x)],
            HugeData::D170 => vec![tag("type", "D170", 170)],
            HugeData::D171 => vec![tag("type", "D171", 171)],
            HugeData::D172 => vec![tag("type", "D172", 172)],
            HugeData::D173 { x } => vec![tag("type", "D173", 173), req("x", x)],
            HugeData::D174 => vec![tag("type", "D174", 174)],
            HugeData::D175(p) => { let mut f = vec![tag("type", "D175", 175)]; f.extend(p.fields()); f }
            HugeData::D176 => vec![tag("type", "D176", 176)],
            HugeData::D177 { x } => vec![tag("type", "D177", 177), req("x", x)],
            HugeData::D178 => vec![tag("type", "D178", 178)],
            HugeData::D179 => vec![tag("type", "D179", 179)],
            HugeData::D180 => vec![tag("type", "D180", 180)],
            HugeData::D181 { x } => vec![tag("type", "D181", 181), req("x", x)],
            HugeData::D182 => vec![tag("type", "D182", 182)],
            HugeData::D183(p) => { let mut f = vec![tag("type", "D183", 183)]; f.extend(p.fields()); f }
            HugeData::D184 => vec![tag("type", "D184", 184)],
            HugeData::D185 { x } => vec![tag("type", "D185", 185), req("x", x)],
            HugeData::D186 => vec![tag("type", "D186", 186)],
            HugeData::D187 => vec![tag("type", "D187", 187)],
            HugeData::D188 => vec![tag("type", "D188", 188)],
            HugeData::D189 { x } => vec![tag("type", "D189", 189), req("x", x)],
            HugeData::D190 => vec![tag("type", "D190", 190)],
            HugeData::D191(p) => { let mut f = vec![tag("type", "D191", 191)]; f.extend(p.fields()); f }
            HugeData::D192 => vec![tag("type", "D192", 192)],
            HugeData::D193 { x } => vec![tag("type", "D193", 193), req("x", x)],
            HugeData::D194 => vec![tag("type", "D194", 194)],
            HugeData::D195 => vec![tag("type", "D195", 195)],
            HugeData::D196 => vec![tag("type", "D196", 196)],
            HugeData::D197 { x } => vec![tag("type", "D197", 197), req("x", x)],
            HugeData::D198 => vec![tag("type", "D198", 198)],
            HugeData::D199(p) => { let mut f = vec![tag("type", "D199", 199)]; f.extend(p.fields()); f }
            HugeData::D200 => vec![tag("type", "D200", 200)],
            HugeData::D201 { x } => vec![tag("type", "D201", 201), req("x", x)],
            HugeData::D202 => vec![tag("type", "D202", 202)],
            HugeData::D203 => vec![tag("type", "D203", 203)],
            HugeData::D204 => vec![tag("type", "D204", 204)],
            HugeData::D205 { x } => vec![tag("type", "D205", 205), req("x", x)],
            HugeData::D206 => vec![tag("type", "D206", 206)],
            HugeData::D207(p) => { let mut f = vec![tag("type", "D207", 207)]; f.extend(p.fields()); f }
            HugeData::D208 => vec![tag("type", "D208", 208)],
            HugeData::D209 { x } => vec![tag("type", "D209", 209), req("x", x)],
            HugeData::D210 => vec![tag("type", "D210", 210)],
            HugeData::D211 => vec![tag("type", "D211", 211)],
            HugeData::D212 => vec![tag("type", "D212", 212)],
            HugeData::D213 { x } => vec![tag("type", "D213", 213), req("x", x)],
            HugeData::D214 => vec![tag("type", "D214", 214)],
            HugeData::D215(p) => { let mut f = vec![tag("type", "D215", 215)]; f.extend(p.fields()); f }
            HugeData::D216 => vec![tag("type", "D216", 216)],
            HugeData::D217 { x } => vec![tag("type", "D217", 217), req("x", x)],
            HugeData::D218 => vec![tag("type", "D218", 218)],
            HugeData::D219 => vec![tag("type", "D219", 219)],
            HugeData::D220 => vec![tag("type", "D220", 220)],
            HugeData::D221 { x } => vec![tag("type", "D221", 221), req("x", x)],
            HugeData::D222 => vec![tag("type", "D222", 222)],
            HugeData::D223(p) => { let mut f = vec![tag("type", "D223", 223)]; f.extend(p.fields()); f }
            HugeData::D224 => vec![tag("type", "D224", 224)],
            HugeData::D225 { x } => vec![tag("type", "D225", 225), req("x", x)],
            HugeData::D226 => vec![tag("type", "D226", 226)],
            HugeData::D227 => vec![tag("type", "D227", 227)],
            HugeData::D228 => vec![tag("type", "D228", 228)],
            HugeData::D229 { x } => vec![tag("type", "D229", 229), req("x", x)],
            HugeData::D230 => vec![tag("type", "D230", 230)],
            HugeData::D231(p) => { let mut f = vec![tag("type", "D231", 231)]; f.extend(p.fields()); f }
            HugeData::D232 => vec![tag("type", "D232", 232)],
            HugeData::D233 { x } => vec![tag("type", "D233", 233), req("x", x)],
            HugeData::D234 => vec![tag("type", "D234", 234)],
            HugeData::D235 => vec![tag("type", "D235", 235)],
            HugeData::D236 => vec![tag("type", "D236", 236)],
            HugeData::D237 { x } => vec![tag("type", "D237", 237), req("x", x)],
            HugeData::D238 => vec![tag("type", "D238", 238)],
            HugeData::D239(p) => { let mut f = vec![tag("type", "D239", 239)]; f.extend(p.fields()); f }
            HugeData::D240 => vec![tag("type", "D240", 240)],
            HugeData::D241 { x } => vec![tag("type", "D241", 241), req("x", x)],
            HugeData::D242 => vec![tag("type", "D242", 242)],
            HugeData::D243 => vec![tag("type", "D243", 243)],
            HugeData::D244 => vec![tag("type", "D244", 244)],
            HugeData::D245 { x } => vec![tag("type", "D245", 245), req("x", x)],
            HugeData::D246 => vec![tag("type", "D246", 246)],
            HugeData::D247(p) => { let mut f = vec![tag("type", "D247", 247)]; f.extend(p.fields()); f }
            HugeData::D248 => vec![tag("type", "D248", 248)],
            HugeData::D249 { x } => vec![tag("type", "D249", 249), req("x", x)],
            HugeData::D250 => vec![tag("type", "D250", 250)],
            HugeData::D251 => vec![tag("type", "D251", 251)],
            HugeData::D252 => vec![tag("type", "D252", 252)],
            HugeData::D253 { x } => vec![tag("type", "D253", 253), req("x", x)],
            HugeData::D254 => vec![tag("type", "D254", 254)],
            HugeData::D255(p) => { let mut f = vec![tag("type", "D255", 255)]; f.extend(p.fields()); f }
            HugeData::D256 => vec![tag("type", "D256", 256)],
            HugeData::D257 { x } => vec![tag("type", "D257", 257), req("x", x)],
            HugeData::D258 => vec![tag("type", "D258", 258)],
            HugeData::D259 => vec![tag("type", "D259", 259)],
            HugeData::D260 => vec![tag("type", "D260", 260)],
            HugeData::D261 { x } => vec![tag("type", "D261", 261), req("x", x)],
            HugeData::D262 => vec![tag("type", "D262", 262)],
            HugeData::D263(p) => { let mut f = vec![tag("type", "D263", 263)]; f.extend(p.fields()); f }
        })
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Broad {
    pub f0: u8,
    pub f1: Option<u8>,
    #[serde(default)]
    pub f2: u32,
    #[serde(default)]
    pub f3: bool,
    #[serde(default)]
    pub f4: Option<Option<bool>>,
    pub f5: u8,
    pub f6: Option<u8>,
    #[serde(default)]
    pub f7: u32,
    pub f8: bool,
    pub f9: Option<Option<bool>>,
    pub f10: u8,
    pub f11: Option<u8>,
    #[serde(default)]
    pub f12: u32,
    pub f13: bool,
    pub f14: Option<Option<bool>>,
    pub f15: u8,
    pub f16: Option<u8>,
    #[serde(default)]
    pub f17: u32,
    pub f18: bool,
    pub f19: Option<Option<bool>>,
    pub f20: u8,
    pub f21: Option<u8>,
    #[serde(default)]
    pub f22: u32,
    #[serde(default)]
    pub f23: bool,
    #[serde(default)]
    pub f24: Option<Option<bool>>,
    pub f25: u8,
    pub f26: Option<u8>,
    #[serde(default)]
    pub f27: u32,
    pub f28: bool,
    pub f29: Option<Option<bool>>,
    pub f30: u8,
    pub f31: Option<u8>,
    #[serde(default)]
    pub f32: u32,
    pub f33: bool,
    pub f34: Option<Option<bool>>,
    pub f35: u8,
    pub f36: Option<u8>,
    #[serde(default)]
    pub f37: u32,
    pub f38: bool,
    pub f39: Option<Option<bool>>,
    pub f40: u8,
    pub f41: Option<u8>,
    #[serde(default)]
    pub f42: u32,
    #[serde(default)]
    pub f43: bool,
    #[serde(default)]
    pub f44: Option<Option<bool>>,
    pub f45: u8,
    pub f46: Option<u8>,
    #[serde(default)]
    pub f47: u32,
    pub f48: bool,
    pub f49: Option<Option<bool>>,
    pub f50: u8,
    pub f51: Option<u8>,
    #[serde(default)]
    pub f52: u32,
    pub f53: bool,
    pub f54: Option<Option<bool>>,
    pub f55: u8,
    pub f56: Option<u8>,
    #[serde(default)]
    pub f57: u32,
    pub f58: bool,
    pub f59: Option<Option<bool>>,
    pub f60: u8,
    pub f61: Option<u8>,
    #[serde(default)]
    pub f62: u32,
    #[serde(default)]
    pub f63: bool,
    #[serde(default)]
    pub f64: Option<Option<bool>>,
    pub f65: u8,
    pub f66: Option<u8>,
    #[serde(default)]
    pub f67: u32,
    pub f68: bool,
    pub f69: Option<Option<bool>>,
    pub f70: u8,
    pub f71: Option<u8>,
    #[serde(default)]
    pub f72: u32,
    pub f73: bool,
    pub f74: Option<Option<bool>>,
    pub f75: u8,
    pub f76: Option<u8>,
    #[serde(default)]
    pub f77: u32,
    pub f78: bool,
    pub f79: Option<Option<bool>>,
    pub f80: u8,
    pub f81: Option<u8>,
    #[serde(default)]
    pub f82: u32,
    #[serde(default)]
    pub f83: bool,
    #[serde(default)]
    pub f84: Option<Option<bool>>,
    pub f85: u8,
    pub f86: Option<u8>,
    #[serde(default)]
    pub f87: u32,
    pub f88: bool,
    pub f89: Option<Option<bool>>,
    pub f90: u8,
    pub f91: Option<u8>,
    #[serde(default)]
    pub f92: u32,
    pub f93: bool,
    pub f94: Option<Option<bool>>,
    pub f95: u8,
    pub f96: Option<u8>,
    #[serde(default)]
    pub f97: u32,
    pub f98: bool,
    pub f99: Option<Option<bool>>,
    pub f100: u8,
    pub f101: Option<u8>,
    #[serde(default)]
    pub f102: u32,
    #[serde(default)]
    pub f103: bool,
    #[serde(default)]
    pub f104: Option<Option<bool>>,
    pub f105: u8,
    pub f106: Option<u8>,
    #[serde(default)]
    pub f107: u32,
    pub f108: bool,
    pub f109: Option<Option<bool>>,
    pub f110: u8,
    pub f111: Option<u8>,
    #[serde(default)]
    pub f112: u32,
    pub f113: bool,
    pub f114: Option<Option<bool>>,
    pub f115: u8,
    pub f116: Option<u8>,
    #[serde(default)]
    pub f117: u32,
    pub f118: bool,
    pub f119: Option<Option<bool>>,
    pub f120: u8,
    pub f121: Option<u8>,
    #[serde(default)]
    pub f122: u32,
    #[serde(default)]
    pub f123: bool,
    #[serde(default)]
    pub f124: Option<Option<bool>>,
    pub f125: u8,
    pub f126: Option<u8>,
    #[serde(default)]
    pub f127: u32,
    pub f128: bool,
    pub f129: Option<Option<bool>>,
    pub f130: u8,
    pub f131: Option<u8>,
    #[serde(default)]
    pub f132: u32,
    pub f133: bool,
    pub f134: Option<Option<bool>>,
    pub f135: u8,
    pub f136: Option<u8>,
    #[serde(default)]
    pub f137: u32,
    pub f138: bool,
    pub f139: Option<Option<bool>>,
    pub f140: u8,
    pub f141: Option<u8>,
    #[serde(default)]
    pub f142: u32,
    #[serde(default)]
    pub f143: bool,
    #[serde(default)]
    pub f144: Option<Option<bool>>,
    pub f145: u8,
    pub f146: Option<u8>,
    #[serde(default)]
    pub f147: u32,
    pub f148: bool,
    pub f149: Option<Option<bool>>,
}
impl Ty for Broad {
    fn gen(r: &mut Rng) -> Self {
        Broad {
            f0: Ty::gen(r),
            f1: Ty::gen(r),
            f2: if r.bool() { Default::default() } else { Ty::gen(r) },
            f3: if r.bool() { Default::default() } else { Ty::gen(r) },
            f4: if r.bool() { Default::default() } else { Ty::gen(r) },
            f5: Ty::gen(r),
            f6: Ty::gen(r),
            f7: if r.bool() { Default::default() } else { Ty::gen(r) },
            f8: Ty::gen(r),
            f9: Ty::gen(r),
            f10: Ty::gen(r),
            f11: Ty::gen(r),
            f12: if r.bool() { Default::default() } else { Ty::gen(r) },
            f13: Ty::gen(r),
            f14: Ty::gen(r),
            f15: Ty::gen(r),
            f16: Ty::gen(r),
            f17: if r.bool() { Default::default() } else { Ty::gen(r) },
            f18: Ty::gen(r),
            f19: Ty::gen(r),
            f20: Ty::gen(r),
            f21: Ty::gen(r),
            f22: if r.bool() { Default::default() } else { Ty::gen(r) },
            f23: if r.bool() { Default::default() } else { Ty::gen(r) },
            f24: if r.bool() { Default::default() } else { Ty::gen(r) },
            f25: Ty::gen(r),
            f26: Ty::gen(r),
            f27: if r.bool() { Default::default() } else { Ty::gen(r) },
            f28: Ty::gen(r),
            f29: Ty::gen(r),
            f30: Ty::gen(r),
            f31: Ty::gen(r),
            f32: if r.bool() { Default::default() } else { Ty::gen(r) },
            f33: Ty::gen(r),
            f34: Ty::gen(r),
            f35: Ty::gen(r),
            f36: Ty::gen(r),
            f37: if r.bool() { Default::default() } else { Ty::gen(r) },
            f38: Ty::gen(r),
            f39: Ty::gen(r),
            f40: Ty::gen(r),
            f41: Ty::gen(r),
            f42: if r.bool() { Default::default() } else { Ty::gen(r) },
            f43: if r.bool() { Default::default() } else { Ty::gen(r) },
            f44: if r.bool() { Default::default() } else { Ty::gen(r) },
            f45: Ty::gen(r),
            f46: Ty::gen(r),
            f47: if r.bool() { Default::default() } else { Ty::gen(r) },
            f48: Ty::gen(r),
            f49: Ty::gen(r),
            f50: Ty::gen(r),
            f51: Ty::gen(r),
            f52: if r.bool() { Default::default() } else { Ty::gen(r) },
            f53: Ty::gen(r),
            f54: Ty::gen(r),
            f55: Ty::gen(r),
            f56: Ty::gen(r),
            f57: if r.bool() { Default::default() } else { Ty::gen(r) },
            f58: Ty::gen(r),
            f59: Ty::gen(r),
            f60: Ty::gen(r),
            f61: Ty::gen(r),
            f62: if r.bool() { Default::default() } else { Ty::gen(r) },
            f63: if r.bool() { Default::default() } else { Ty::gen(r) },
            f64: if r.bool() { Default::default() } else { Ty::gen(r) },
            f65: Ty::gen(r),
            f66: Ty::gen(r),
            f67: if r.bool() { Default::default() } else { Ty::gen(r) },
            f68: Ty::gen(r),
            f69: Ty::gen(r),
            f70: Ty::gen(r),
            f71: Ty::gen(r),
            f72: if r.bool() { Default::default() } else { Ty::gen(r) },
            f73: Ty::gen(r),
            f74: Ty::gen(r),
            f75: Ty::gen(r),
            f76: Ty::gen(r),
            f77: if r.bool() { Default::default() } else { Ty::gen(r) },
            f78: Ty::gen(r),
            f79: Ty::gen(r),
            f80: Ty::gen(r),
            f81: Ty::gen(r),
            f82: if r.bool() { Default::default() } else { Ty::gen(r) },
            f83: if r.bool() { Default::default() } else { Ty::gen(r) },
            f84: if r.bool() { Default::default() } else { Ty::gen(r) },
            f85: Ty::gen(r),
            f86: Ty::gen(r),
            f87: if r.bool() { Default::default() } else { Ty::gen(r) },
            f88: Ty::gen(r),
            f89: Ty::gen(r),
            f90: Ty::gen(r),
            f91: Ty::gen(r),
            f92: if r.bool() { Default::default() } else { Ty::gen(r) },
            f93: Ty::gen(r),
            f94: Ty::gen(r),
            f95: Ty::gen(r),
            f96: Ty::gen(r),
            f97: if r.bool() { Default::default() } else { Ty::gen(r) },
            f98: Ty::gen(r),
            f99: Ty::gen(r),
            f100: Ty::gen(r),
            f101: Ty::gen(r),
            f102: if r.bool() { Default::default() } else { Ty::gen(r) },
            f103: if r.bool() { Default::default() } else { Ty::gen(r) },
            f104: if r.bool() { Default::default() } else { Ty::gen(r) },
            f105: Ty::gen(r),
            f106: Ty::gen(r),
            f107: if r.bool() { Default::default() } else { Ty::gen(r) },
            f108: Ty::gen(r),
            f109: Ty::gen(r),
            f110: Ty::gen(r),
            f111: Ty::gen(r),
            f112: if r.bool() { Default::default() } else { Ty::gen(r) },
            f113: Ty::gen(r),
            f114: Ty::gen(r),
            f115: Ty::gen(r),
            f116: Ty::gen(r),
            f117: if r.bool() { Default::default() } else { Ty::gen(r) },
            f118: Ty::gen(r),
            f119: Ty::gen(r),
            f120: Ty::gen(r),
            f121: Ty::gen(r),
            f122: if r.bool() { Default::default() } else { Ty::gen(r) },
            f123: if r.bool() { Default::default() } else { Ty::gen(r) },
            f124: if r.bool() { Default::default() } else { Ty::gen(r) },
            f125: Ty::gen(r),
            f126: Ty::gen(r),
            f127: if r.bool() { Default::default() } else { Ty::gen(r) },
            f128: Ty::gen(r),
            f129: Ty::gen(r),
            f130: Ty::gen(r),
            f131: Ty::gen(r),
            f132: if r.bool() { Default::default() } else { Ty::gen(r) },
            f133: Ty::gen(r),
            f134: Ty::gen(r),
            f135: Ty::gen(r),
            f136: Ty::gen(r),
            f137: if r.bool() { Default::default() } else { Ty::gen(r) },
            f138: Ty::gen(r),
            f139: Ty::gen(r),
            f140: Ty::gen(r),
            f141: Ty::gen(r),
            f142: if r.bool() { Default::default() } else { Ty::gen(r) },
            f143: if r.bool() { Default::default() } else { Ty::gen(r) },
            f144: if r.bool() { Default::default() } else { Ty::gen(r) },
            f145: Ty::gen(r),
            f146: Ty::gen(r),
            f147: if r.bool() { Default::default() } else { Ty::gen(r) },
            f148: Ty::gen(r),
            f149: Ty::gen(r),
        }
    }
    fn model(&self) -> M {
        M::Obj(vec![
            req("f0", &self.f0),
            req("f1", &self.f1),
            def("f2", &self.f2),
            def("f3", &self.f3),
            def("f4", &self.f4),
            req("f5", &self.f5),
            req("f6", &self.f6),
            def("f7", &self.f7),
            req("f8", &self.f8),
            req("f9", &self.f9),
            req("f10", &self.f10),
            req("f11", &self.f11),
            def("f12", &self.f12),
            req("f13", &self.f13),
            req("f14", &self.f14),
            req("f15", &self.f15),
            req("f16", &self.f16),
            def("f17", &self.f17),
            req("f18", &self.f18),
            req("f19", &self.f19),
            req("f20", &self.f20),
            req("f21", &self.f21),
            def("f22", &self.f22),
            def("f23", &self.f23),
            def("f24", &self.f24),
            req("f25", &self.f25),
            req("f26", &self.f26),
            def("f27", &self.f27),
            req("f28", &self.f28),
            req("f29", &self.f29),
            req("f30", &self.f30),
            req("f31", &self.f31),
            def("f32", &self.f32),
            req("f33", &self.f33),
            req("f34", &self.f34),
            req("f35", &self.f35),
            req("f36", &self.f36),
            def("f37", &self.f37),
            req("f38", &self.f38),
            req("f39", &self.f39),
            req("f40", &self.f40),
            req("f41", &self.f41),
            def("f42", &self.f42),
            def("f43", &self.f43),
            def("f44", &self.f44),
            req("f45", &self.f45),
            req("f46", &self.f46),
            def("f47", &self.f47),
            req("f48", &self.f48),
            req("f49", &self.f49),
            req("f50", &self.f50),
            req("f51", &self.f51),
            def("f52", &self.f52),
            req("f53", &self.f53),
            req("f54", &self.f54),
            req("f55", &self.f55),
            req("f56", &self.f56),
            def("f57", &self.f57),
            req("f58", &self.f58),
            req("f59", &self.f59),
            req("f60", &self.f60),
            req("f61", &self.f61),
            def("f62", &self.f62),
            def("f63", &self.f63),
            def("f64", &self.f64),
            req("f65", &self.f65),
            req("f66", &self.f66),
            def("f67", &self.f67),
            req("f68", &self.f68),
            req("f69", &self.f69),
            req("f70", &self.f70),
            req("f71", &self.f71),
            def("f72", &self.f72),
            req("f73", &self.f73),
            req("f74", &self.f74),
            req("f75", &self.f75),
            req("f76", &self.f76),
            def("f77", &self.f77),
            req("f78", &self.f78),
            req("f79", &self.f79),
            req("f80", &self.f80),
            req("f81", &self.f81),
            def("f82", &self.f82),
            def("f83", &self.f83),
            def("f84", &self.f84),
            req("f85", &self.f85),
            req("f86", &self.f86),
            def("f87", &self.f87),
            req("f88", &self.f88),
            req("f89", &self.f89),
            req("f90", &self.f90),
            req("f91", &self.f91),
            def("f92", &self.f92),
            req("f93", &self.f93),
            req("f94", &self.f94),
            req("f95", &self.f95),
            req("f96", &self.f96),
            def("f97", &self.f97),
            req("f98", &self.f98),
            req("f99", &self.f99),
            req("f100", &self.f100),
            req("f101", &self.f101),
            def("f102", &self.f102),
            def("f103", &self.f103),
            def("f104", &self.f104),
            req("f105", &self.f105),
            req("f106", &self.f106),
            def("f107", &self.f107),
            req("f108", &self.f108),
            req("f109", &self.f109),
            req("f110", &self.f110),
            req("f111", &self.f111),
            def("f112", &self.f112),
            req("f113", &self.f113),
            req("f114", &self.f114),
            req("f115", &self.f115),
            req("f116", &self.f116),
            def("f117", &self.f117),
            req("f118", &self.f118),
            req("f119", &self.f119),
            req("f120", &self.f120),
            req("f121", &self.f121),
            def("f122", &self.f122),
            def("f123", &self.f123),
            def("f124", &self.f124),
            req("f125", &self.f125),
            req("f126", &self.f126),
            def("f127", &self.f127),
            req("f128", &self.f128),
            req("f129", &self.f129),
            req("f130", &self.f130),
            req("f131", &self.f131),
            def("f132", &self.f132),
            req("f133", &self.f133),
            req("f134", &self.f134),
            req("f135", &self.f135),
            req("f136", &self.f136),
            def("f137", &self.f137),
            req("f138", &self.f138),
            req("f139", &self.f139),
            req("f140", &self.f140),
            req("f141", &self.f141),
            def("f142", &self.f142),
            def("f143", &self.f143),
            def("f144", &self.f144),
            req("f145", &self.f145),
            req("f146", &self.f146),
            def("f147", &self.f147),
            req("f148", &self.f148),
            req("f149", &self.f149),
        ])
    }
}
