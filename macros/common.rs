//! Shared by the generated modules: token and symbol types, event recording, comparison.
#![allow(dead_code)]
use parser::enum_index;
use parser::enum_index_derive::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use tokenizer::{DFATokenizer, Tokenize};

pub const VARIANTS: usize = 320;
/// Stands for a generated macro's listed value; the payload never matters there.
pub const ANY: usize = 0;
#[derive(Debug, EnumIndex)]
pub enum Tk {
    V0(usize),
    V1{ at: usize },
    V2(usize, ()),
    V3(usize),
    V4{ at: usize },
    V5(usize, ()),
    V6(usize),
    V7{ at: usize },
    V8(usize, ()),
    V9(usize),
    V10{ at: usize },
    V11(usize, ()),
    V12(usize),
    V13{ at: usize },
    V14(usize, ()),
    V15(usize),
    V16{ at: usize },
    V17(usize, ()),
    V18(usize),
    V19{ at: usize },
    V20(usize, ()),
    V21(usize),
    V22{ at: usize },
    V23(usize, ()),
    V24(usize),
    V25{ at: usize },
    V26(usize, ()),
    V27(usize),
    V28{ at: usize },
    V29(usize, ()),
    V30(usize),
    V31{ at: usize },
    V32(usize, ()),
    V33(usize),
    V34{ at: usize },
    V35(usize, ()),
    V36(usize),
    V37{ at: usize },
    V38(usize, ()),
    V39(usize),
    V40{ at: usize },
    V41(usize, ()),
    V42(usize),
    V43{ at: usize },
    V44(usize, ()),
    V45(usize),
    V46{ at: usize },
    V47(usize, ()),
    V48(usize),
    V49{ at: usize },
    V50(usize, ()),
    V51(usize),
    V52{ at: usize },
    V53(usize, ()),
    V54(usize),
    V55{ at: usize },
    V56(usize, ()),
    V57(usize),
    V58{ at: usize },
    V59(usize, ()),
    V60(usize),
    V61{ at: usize },
    V62(usize, ()),
    V63(usize),
    V64{ at: usize },
    V65(usize, ()),
    V66(usize),
    V67{ at: usize },
    V68(usize, ()),
    V69(usize),
    V70{ at: usize },
    V71(usize, ()),
    V72(usize),
    V73{ at: usize },
    V74(usize, ()),
    V75(usize),
    V76{ at: usize },
    V77(usize, ()),
    V78(usize),
    V79{ at: usize },
    V80(usize, ()),
    V81(usize),
    V82{ at: usize },
    V83(usize, ()),
    V84(usize),
    V85{ at: usize },
    V86(usize, ()),
    V87(usize),
    V88{ at: usize },
    V89(usize, ()),
    V90(usize),
    V91{ at: usize },
    V92(usize, ()),
    V93(usize),
    V94{ at: usize },
    V95(usize, ()),
    V96(usize),
    V97{ at: usize },
    V98(usize, ()),
    V99(usize),
    V100{ at: usize },
    V101(usize, ()),
    V102(usize),
    V103{ at: usize },
    V104(usize, ()),
    V105(usize),
    V106{ at: usize },
    V107(usize, ()),
    V108(usize),
    V109{ at: usize },
    V110(usize, ()),
    V111(usize),
    V112{ at: usize },
    V113(usize, ()),
    V114(usize),
    V115{ at: usize },
    V116(usize, ()),
    V117(usize),
    V118{ at: usize },
    V119(usize, ()),
    V120(usize),
    V121{ at: usize },
    V122(usize, ()),
    V123(usize),
    V124{ at: usize },
    V125(usize, ()),
    V126(usize),
    V127{ at: usize },
    V128(usize, ()),
    V129(usize),
    V130{ at: usize },
    V131(usize, ()),
    V132(usize),
    V133{ at: usize },
    V134(usize, ()),
    V135(usize),
    V136{ at: usize },
    V137(usize, ()),
    V138(usize),
    V139{ at: usize },
    V140(usize, ()),
    V141(usize),
    V142{ at: usize },
    V143(usize, ()),
    V144(usize),
    V145{ at: usize },
    V146(usize, ()),
    V147(usize),
    V148{ at: usize },
    V149(usize, ()),
    V150(usize),
    V151{ at: usize },
    V152(usize, ()),
    V153(usize),
    V154{ at: usize },
    V155(usize, ()),
    V156(usize),
    V157{ at: usize },
    V158(usize, ()),
    V159(usize),
    V160{ at: usize },
    V161(usize, ()),
    V162(usize),
    V163{ at: usize },
    V164(usize, ()),
    V165(usize),
    V166{ at: usize },
    V167(usize, ()),
    V168(usize),
    V169{ at: usize },
    V170(usize, ()),
    V171(usize),
    V172{ at: usize },
    V173(usize, ()),
    V174(usize),
    V175{ at: usize },
    V176(usize, ()),
    V177(usize),
    V178{ at: usize },
    V179(usize, ()),
    V180(usize),
    V181{ at: usize },
    V182(usize, ()),
    V183(usize),
    V184{ at: usize },
    V185(usize, ()),
    V186(usize),
    V187{ at: usize },
    V188(usize, ()),
    V189(usize),
    V190{ at: usize },
    V191(usize, ()),
    V192(usize),
    V193{ at: usize },
    V194(usize, ()),
    V195(usize),
    V196{ at: usize },
    V197(usize, ()),
    V198(usize),
    V199{ at: usize },
    V200(usize, ()),
    V201(usize),
    V202{ at: usize },
    V203(usize, ()),
    V204(usize),
    V205{ at: usize },
    V206(usize, ()),
    V207(usize),
    V208{ at: usize },
    V209(usize, ()),
    V210(usize),
    V211{ at: usize },
    V212(usize, ()),
    V213(usize),
    V214{ at: usize },
    V215(usize, ()),
    V216(usize),
    V217{ at: usize },
    V218(usize, ()),
    V219(usize),
    V220{ at: usize },
    V221(usize, ()),
    V222(usize),
    V223{ at: usize },
    V224(usize, ()),
    V225(usize),
    V226{ at: usize },
    V227(usize, ()),
    V228(usize),
    V229{ at: usize },
    V230(usize, ()),
    V231(usize),
    V232{ at: usize },
    V233(usize, ()),
    V234(usize),
    V235{ at: usize },
    V236(usize, ()),
    V237(usize),
    V238{ at: usize },
    V239(usize, ()),
    V240(usize),
    V241{ at: usize },
    V242(usize, ()),
    V243(usize),
    V244{ at: usize },
    V245(usize, ()),
    V246(usize),
    V247{ at: usize },
    V248(usize, ()),
    V249(usize),
    V250{ at: usize },
    V251(usize, ()),
    V252(usize),
    V253{ at: usize },
    V254(usize, ()),
    V255(usize),
    V256{ at: usize },
    V257(usize, ()),
    V258(usize),
    V259{ at: usize },
    V260(usize, ()),
    V261(usize),
    V262{ at: usize },
    V263(usize, ()),
    V264(usize),
    V265{ at: usize },
    V266(usize, ()),
    V267(usize),
    V268{ at: usize },
    V269(usize, ()),
    V270(usize),
    V271{ at: usize },
    V272(usize, ()),
    V273(usize),
    V274{ at: usize },
    V275(usize, ()),
    V276(usize),
    V277{ at: usize },
    V278(usize, ()),
    V279(usize),
    V280{ at: usize },
    V281(usize, ()),
    V282(usize),
    V283{ at: usize },
    V284(usize, ()),
    V285(usize),
    V286{ at: usize },
    V287(usize, ()),
    V288(usize),
    V289{ at: usize },
    V290(usize, ()),
    V291(usize),
    V292{ at: usize },
    V293(usize, ()),
    V294(usize),
    V295{ at: usize },
    V296(usize, ()),
    V297(usize),
    V298{ at: usize },
    V299(usize, ()),
    V300(usize),
    V301{ at: usize },
    V302(usize, ()),
    V303(usize),
    V304{ at: usize },
    V305(usize, ()),
    V306(usize),
    V307{ at: usize },
    V308(usize, ()),
    V309(usize),
    V310{ at: usize },
    V311(usize, ()),
    V312(usize),
    V313{ at: usize },
    V314(usize, ()),
    V315(usize),
    V316{ at: usize },
    V317(usize, ()),
    V318(usize),
    V319{ at: usize },
}
impl Tk {
    pub fn make(v: usize, at: usize) -> Tk {
        match v {
            0 => Tk::V0(at),
            1 => Tk::V1 { at },
            2 => Tk::V2(at, ()),
            3 => Tk::V3(at),
            4 => Tk::V4 { at },
            5 => Tk::V5(at, ()),
            6 => Tk::V6(at),
            7 => Tk::V7 { at },
            8 => Tk::V8(at, ()),
            9 => Tk::V9(at),
            10 => Tk::V10 { at },
            11 => Tk::V11(at, ()),
            12 => Tk::V12(at),
            13 => Tk::V13 { at },
            14 => Tk::V14(at, ()),
            15 => Tk::V15(at),
            16 => Tk::V16 { at },
            17 => Tk::V17(at, ()),
            18 => Tk::V18(at),
            19 => Tk::V19 { at },
            20 => Tk::V20(at, ()),
            21 => Tk::V21(at),
            22 => Tk::V22 { at },
            23 => Tk::V23(at, ()),
            24 => Tk::V24(at),
            25 => Tk::V25 { at },
            26 => Tk::V26(at, ()),
            27 => Tk::V27(at),
            28 => Tk::V28 { at },
            29 => Tk::V29(at, ()),
            30 => Tk::V30(at),
            31 => Tk::V31 { at },
            32 => Tk::V32(at, ()),
            33 => Tk::V33(at),
            34 => Tk::V34 { at },
            35 => Tk::V35(at, ()),
            36 => Tk::V36(at),
            37 => Tk::V37 { at },
            38 => Tk::V38(at, ()),
            39 => Tk::V39(at),
            40 => Tk::V40 { at },
            41 => Tk::V41(at, ()),
            42 => Tk::V42(at),
            43 => Tk::V43 { at },
            44 => Tk::V44(at, ()),
            45 => Tk::V45(at),
            46 => Tk::V46 { at },
            47 => Tk::V47(at, ()),
            48 => Tk::V48(at),
            49 => Tk::V49 { at },
            50 => Tk::V50(at, ()),
            51 => Tk::V51(at),
            52 => Tk::V52 { at },
            53 => Tk::V53(at, ()),
            54 => Tk::V54(at),
            55 => Tk::V55 { at },
            56 => Tk::V56(at, ()),
            57 => Tk::V57(at),
            58 => Tk::V58 { at },
            59 => Tk::V59(at, ()),
            60 => Tk::V60(at),
            61 => Tk::V61 { at },
            62 => Tk::V62(at, ()),
            63 => Tk::V63(at),
            64 => Tk::V64 { at },
            65 => Tk::V65(at, ()),
            66 => Tk::V66(at),
            67 => Tk::V67 { at },
            68 => Tk::V68(at, ()),
            69 => Tk::V69(at),
            70 => Tk::V70 { at },
            71 => Tk::V71(at, ()),
            72 => Tk::V72(at),
            73 => Tk::V73 { at },
            74 => Tk::V74(at, ()),
            75 => Tk::V75(at),
            76 => Tk::V76 { at },
            77 => Tk::V77(at, ()),
            78 => Tk::V78(at),
            79 => Tk::V79 { at },
            80 => Tk::V80(at, ()),
            81 => Tk::V81(at),
            82 => Tk::V82 { at },
            83 => Tk::V83(at, ()),
            84 => Tk::V84(at),
            85 => Tk::V85 { at },
            86 => Tk::V86(at, ()),
            87 => Tk::V87(at),
            88 => Tk::V88 { at },
            89 => Tk::V89(at, ()),
            90 => Tk::V90(at),
            91 => Tk::V91 { at },
            92 => Tk::V92(at, ()),
            93 => Tk::V93(at),
            94 => Tk::V94 { at },
            95 => Tk::V95(at, ()),
            96 => Tk::V96(at),
            97 => Tk::V97 { at },
            98 => Tk::V98(at, ()),
            99 => Tk::V99(at),
            100 => Tk::V100 { at },
            101 => Tk::V101(at, ()),
            102 => Tk::V102(at),
            103 => Tk::V103 { at },
            104 => Tk::V104(at, ()),
            105 => Tk::V105(at),
            106 => Tk::V106 { at },
            107 => Tk::V107(at, ()),
            108 => Tk::V108(at),
            109 => Tk::V109 { at },
            110 => Tk::V110(at, ()),
            111 => Tk::V111(at),
            112 => Tk::V112 { at },
            113 => Tk::V113(at, ()),
            114 => Tk::V114(at),
            115 => Tk::V115 { at },
            116 => Tk::V116(at, ()),
            117 => Tk::V117(at),
            118 => Tk::V118 { at },
            119 => Tk::V119(at, ()),
            120 => Tk::V120(at),
            121 => Tk::V121 { at },
            122 => Tk::V122(at, ()),
            123 => Tk::V123(at),
            124 => Tk::V124 { at },
            125 => Tk::V125(at, ()),
            126 => Tk::V126(at),
            127 => Tk::V127 { at },
            128 => Tk::V128(at, ()),
            129 => Tk::V129(at),
            130 => Tk::V130 { at },
            131 => Tk::V131(at, ()),
            132 => Tk::V132(at),
            133 => Tk::V133 { at },
            134 => Tk::V134(at, ()),
            135 => Tk::V135(at),
            136 => Tk::V136 { at },
            137 => Tk::V137(at, ()),
            138 => Tk::V138(at),
            139 => Tk::V139 { at },
            140 => Tk::V140(at, ()),
            141 => Tk::V141(at),
            142 => Tk::V142 { at },
            143 => Tk::V143(at, ()),
            144 => Tk::V144(at),
            145 => Tk::V145 { at },
            146 => Tk::V146(at, ()),
            147 => Tk::V147(at),
            148 => Tk::V148 { at },
            149 => Tk::V149(at, ()),
            150 => Tk::V150(at),
            151 => Tk::V151 { at },
            152 => Tk::V152(at, ()),
            153 => Tk::V153(at),
            154 => Tk::V154 { at },
            155 => Tk::V155(at, ()),
            156 => Tk::V156(at),
            157 => Tk::V157 { at },
            158 => Tk::V158(at, ()),
            159 => Tk::V159(at),
            160 => Tk::V160 { at },
            161 => Tk::V161(at, ()),
            162 => Tk::V162(at),
            163 => Tk::V163 { at },
            164 => Tk::V164(at, ()),
            165 => Tk::V165(at),
            166 => Tk::V166 { at },
            167 => Tk::V167(at, ()),
            168 => Tk::V168(at),
            169 => Tk::V169 { at },
            170 => Tk::V170(at, ()),
            171 => Tk::V171(at),
            172 => Tk::V172 { at },
            173 => Tk::V173(at, ()),
            174 => Tk::V174(at),
            175 => Tk::V175 { at },
            176 => Tk::V176(at, ()),
            177 => Tk::V177(at),
            178 => Tk::V178 { at },
            179 => Tk::V179(at, ()),
            180 => Tk::V180(at),
            181 => Tk::V181 { at },
            182 => Tk::V182(at, ()),
            183 => Tk::V183(at),
            184 => Tk::V184 { at },
            185 => Tk::V185(at, ()),
            186 => Tk::V186(at),
            187 => Tk::V187 { at },
            188 => Tk::V188(at, ()),
            189 => Tk::V189(at),
            190 => Tk::V190 { at },
            191 => Tk::V191(at, ()),
            192 => Tk::V192(at),
            193 => Tk::V193 { at },
            194 => Tk::V194(at, ()),
            195 => Tk::V195(at),
            196 => Tk::V196 { at },
            197 => Tk::V197(at, ()),
            198 => Tk::V198(at),
            199 => Tk::V199 { at },
            200 => Tk::V200(at, ()),
            201 => Tk::V201(at),
            202 => Tk::V202 { at },
            203 => Tk::V203(at, ()),
            204 => Tk::V204(at),
            205 => Tk::V205 { at },
            206 => Tk::V206(at, ()),
            207 => Tk::V207(at),
            208 => Tk::V208 { at },
            209 => Tk::V209(at, ()),
            210 => Tk::V210(at),
            211 => Tk::V211 { at },
            212 => Tk::V212(at, ()),
            213 => Tk::V213(at),
            214 => Tk::V214 { at },
            215 => Tk::V215(at, ()),
            216 => Tk::V216(at),
            217 => Tk::V217 { at },
            218 => Tk::V218(at, ()),
            219 => Tk::V219(at),
            220 => Tk::V220 { at },
            221 => Tk::V221(at, ()),
            222 => Tk::V222(at),
            223 => Tk::V223 { at },
            224 => Tk::V224(at, ()),
            225 => Tk::V225(at),
            226 => Tk::V226 { at },
            227 => Tk::V227(at, ()),
            228 => Tk::V228(at),
            229 => Tk::V229 { at },
            230 => Tk::V230(at, ()),
            231 => Tk::V231(at),
            232 => Tk::V232 { at },
            233 => Tk::V233(at, ()),
            234 => Tk::V234(at),
            235 => Tk::V235 { at },
            236 => Tk::V236(at, ()),
            237 => Tk::V237(at),
            238 => Tk::V238 { at },
            239 => Tk::V239(at, ()),
            240 => Tk::V240(at),
            241 => Tk::V241 { at },
            242 => Tk::V242(at, ()),
            243 => Tk::V243(at),
            244 => Tk::V244 { at },
            245 => Tk::V245(at, ()),
            246 => Tk::V246(at),
            247 => Tk::V247 { at },
            248 => Tk::V248(at, ()),
            249 => Tk::V249(at),
            250 => Tk::V250 { at },
            251 => Tk::V251(at, ()),
            252 => Tk::V252(at),
            253 => Tk::V253 { at },
            254 => Tk::V254(at, ()),
            255 => Tk::V255(at),
            256 => Tk::V256 { at },
            257 => Tk::V257(at, ()),
            258 => Tk::V258(at),
            259 => Tk::V259 { at },
            260 => Tk::V260(at, ()),
            261 => Tk::V261(at),
            262 => Tk::V262 { at },
            263 => Tk::V263(at, ()),
            264 => Tk::V264(at),
            265 => Tk::V265 { at },
            266 => Tk::V266(at, ()),
            267 => Tk::V267(at),
            268 => Tk::V268 { at },
            269 => Tk::V269(at, ()),
            270 => Tk::V270(at),
            271 => Tk::V271 { at },
            272 => Tk::V272(at, ()),
            273 => Tk::V273(at),
            274 => Tk::V274 { at },
            275 => Tk::V275(at, ()),
            276 => Tk::V276(at),
            277 => Tk::V277 { at },
            278 => Tk::V278(at, ()),
            279 => Tk::V279(at),
            280 => Tk::V280 { at },
            281 => Tk::V281(at, ()),
            282 => Tk::V282(at),
            283 => Tk::V283 { at },
            284 => Tk::V284(at, ()),
            285 => Tk::V285(at),
            286 => Tk::V286 { at },
            287 => Tk::V287(at, ()),
            288 => Tk::V288(at),
            289 => Tk::V289 { at },
            290 => Tk::V290(at, ()),
            291 => Tk::V291(at),
            292 => Tk::V292 { at },
            293 => Tk::V293(at, ()),
            294 => Tk::V294(at),
            295 => Tk::V295 { at },
            296 => Tk::V296(at, ()),
            297 => Tk::V297(at),
            298 => Tk::V298 { at },
            299 => Tk::V299(at, ()),
            300 => Tk::V300(at),
            301 => Tk::V301 { at },
            302 => Tk::V302(at, ()),
            303 => Tk::V303(at),
            304 => Tk::V304 { at },
            305 => Tk::V305(at, ()),
            306 => Tk::V306(at),
            307 => Tk::V307 { at },
            308 => Tk::V308(at, ()),
            309 => Tk::V309(at),
            310 => Tk::V310 { at },
            311 => Tk::V311(at, ()),
            312 => Tk::V312(at),
            313 => Tk::V313 { at },
            314 => Tk::V314(at, ()),
            315 => Tk::V315(at),
            316 => Tk::V316 { at },
            317 => Tk::V317(at, ()),
            318 => Tk::V318(at),
            319 => Tk::V319 { at },
            _ => unreachable!(),
        }
    }
    /// (variant, payload)
    pub fn look(&self) -> (usize, usize) {
        match self {
            Tk::V0(at) => (0, *at),
            Tk::V1 { at } => (1, *at),
            Tk::V2(at, ()) => (2, *at),
            Tk::V3(at) => (3, *at),
            Tk::V4 { at } => (4, *at),
            Tk::V5(at, ()) => (5, *at),
            Tk::V6(at) => (6, *at),
            Tk::V7 { at } => (7, *at),
            Tk::V8(at, ()) => (8, *at),
            Tk::V9(at) => (9, *at),
            Tk::V10 { at } => (10, *at),
            Tk::V11(at, ()) => (11, *at),
            Tk::V12(at) => (12, *at),
            Tk::V13 { at } => (13, *at),
            Tk::V14(at, ()) => (14, *at),
            Tk::V15(at) => (15, *at),
            Tk::V16 { at } => (16, *at),
            Tk::V17(at, ()) => (17, *at),
            Tk::V18(at) => (18, *at),
            Tk::V19 { at } => (19, *at),
            Tk::V20(at, ()) => (20, *at),
            Tk::V21(at) => (21, *at),
            Tk::V22 { at } => (22, *at),
            Tk::V23(at, ()) => (23, *at),
            Tk::V24(at) => (24, *at),
            Tk::V25 { at } => (25, *at),
            Tk::V26(at, ()) => (26, *at),
            Tk::V27(at) => (27, *at),
            Tk::V28 { at } => (28, *at),
            Tk::V29(at, ()) => (29, *at),
            Tk::V30(at) => (30, *at),
            Tk::V31 { at } => (31, *at),
            Tk::V32(at, ()) => (32, *at),
            Tk::V33(at) => (33, *at),
            Tk::V34 { at } => (34, *at),
            Tk::V35(at, ()) => (35, *at),
            Tk::V36(at) => (36, *at),
            Tk::V37 { at } => (37, *at),
            Tk::V38(at, ()) => (38, *at),
            Tk::V39(at) => (39, *at),
            Tk::V40 { at } => (40, *at),
            Tk::V41(at, ()) => (41, *at),
            Tk::V42(at) => (42, *at),
            Tk::V43 { at } => (43, *at),
            Tk::V44(at, ()) => (44, *at),
            Tk::V45(at) => (45, *at),
            Tk::V46 { at } => (46, *at),
            Tk::V47(at, ()) => (47, *at),
            Tk::V48(at) => (48, *at),
            Tk::V49 { at } => (49, *at),
            Tk::V50(at, ()) => (50, *at),
            Tk::V51(at) => (51, *at),
            Tk::V52 { at } => (52, *at),
            Tk::V53(at, ()) => (53, *at),
            Tk::V54(at) => (54, *at),
            Tk::V55 { at } => (55, *at),
            Tk::V56(at, ()) => (56, *at),
            Tk::V57(at) => (57, *at),
            Tk::V58 { at } => (58, *at),
            Tk::V59(at, ()) => (59, *at),
            Tk::V60(at) => (60, *at),
            Tk::V61 { at } => (61, *at),
            Tk::V62(at, ()) => (62, *at),
            Tk::V63(at) => (63, *at),
            Tk::V64 { at } => (64, *at),
            Tk::V65(at, ()) => (65, *at),
            Tk::V66(at) => (66, *at),
            Tk::V67 { at } => (67, *at),
            Tk::V68(at, ()) => (68, *at),
            Tk::V69(at) => (69, *at),
            Tk::V70 { at } => (70, *at),
            Tk::V71(at, ()) => (71, *at),
            Tk::V72(at) => (72, *at),
            Tk::V73 { at } => (73, *at),
            Tk::V74(at, ()) => (74, *at),
            Tk::V75(at) => (75, *at),
            Tk::V76 { at } => (76, *at),
            Tk::V77(at, ()) => (77, *at),
            Tk::V78(at) => (78, *at),
            Tk::V79 { at } => (79, *at),
            Tk::V80(at, ()) => (80, *at),
            Tk::V81(at) => (81, *at),
            Tk::V82 { at } => (82, *at),
            Tk::V83(at, ()) => (83, *at),
            Tk::V84(at) => (84, *at),
            Tk::V85 { at } => (85, *at),
            Tk::V86(at, ()) => (86, *at),
            Tk::V87(at) => (87, *at),
            Tk::V88 { at } => (88, *at),
            Tk::V89(at, ()) => (89, *at),
            Tk::V90(at) => (90, *at),
            Tk::V91 { at } => (91, *at),
            Tk::V92(at, ()) => (92, *at),
            Tk::V93(at) => (93, *at),
            Tk::V94 { at } => (94, *at),
            Tk::V95(at, ()) => (95, *at),
            Tk::V96(at) => (96, *at),
            Tk::V97 { at } => (97, *at),
            Tk::V98(at, ()) => (98, *at),
            Tk::V99(at) => (99, *at),
            Tk::V100 { at } => (100, *at),
            Tk::V101(at, ()) => (101, *at),
            Tk::V102(at) => (102, *at),
            Tk::V103 { at } => (103, *at),
            Tk::V104(at, ()) => (104, *at),
            Tk::V105(at) => (105, *at),
            Tk::V106 { at } => (106, *at),
            Tk::V107(at, ()) => (107, *at),
            Tk::V108(at) => (108, *at),
            Tk::V109 { at } => (109, *at),
            Tk::V110(at, ()) => (110, *at),
            Tk::V111(at) => (111, *at),
            Tk::V112 { at } => (112, *at),
            Tk::V113(at, ()) => (113, *at),
            Tk::V114(at) => (114, *at),
            Tk::V115 { at } => (115, *at),
            Tk::V116(at, ()) => (116, *at),
            Tk::V117(at) => (117, *at),
            Tk::V118 { at } => (118, *at),
            Tk::V119(at, ()) => (119, *at),
            Tk::V120(at) => (120, *at),
            Tk::V121 { at } => (121, *at),
            Tk::V122(at, ()) => (122, *at),
            Tk::V123(at) => (123, *at),
            Tk::V124 { at } => (124, *at),
            Tk::V125(at, ()) => (125, *at),
            Tk::V126(at) => (126, *at),
            Tk::V127 { at } => (127, *at),
            Tk::V128(at, ()) => (128, *at),
            Tk::V129(at) => (129, *at),
            Tk::V130 { at } => (130, *at),
            Tk::V131(at, ()) => (131, *at),
            Tk::V132(at) => (132, *at),
            Tk::V133 { at } => (133, *at),
            Tk::V134(at, ()) => (134, *at),
            Tk::V135(at) => (135, *at),
            Tk::V136 { at } => (136, *at),
            Tk::V137(at, ()) => (137, *at),
            Tk::V138(at) => (138, *at),
            Tk::V139 { at } => (139, *at),
            Tk::V140(at, ()) => (140, *at),
            Tk::V141(at) => (141, *at),
            Tk::V142 { at } => (142, *at),
            Tk::V143(at, ()) => (143, *at),
            Tk::V144(at) => (144, *at),
            Tk::V145 { at } => (145, *at),
            Tk::V146(at, ()) => (146, *at),
            Tk::V147(at) => (147, *at),
            Tk::V148 { at } => (148, *at),
            Tk::V149(at, ()) => (149, *at),
            Tk::V150(at) => (150, *at),
            Tk::V151 { at } => (151, *at),
            Tk::V152(at, ()) => (152, *at),
            Tk::V153(at) => (153, *at),
            Tk::V154 { at } => (154, *at),
            Tk::V155(at, ()) => (155, *at),
            Tk::V156(at) => (156, *at),
            Tk::V157 { at } => (157, *at),
            Tk::V158(at, ()) => (158, *at),
            Tk::V159(at) => (159, *at),
            Tk::V160 { at } => (160, *at),
            Tk::V161(at, ()) => (161, *at),
            Tk::V162(at) => (162, *at),
            Tk::V163 { at } => (163, *at),
            Tk::V164(at, ()) => (164, *at),
            Tk::V165(at) => (165, *at),
            Tk::V166 { at } => (166, *at),
            Tk::V167(at, ()) => (167, *at),
            Tk::V168(at) => (168, *at),
            Tk::V169 { at } => (169, *at),
            Tk::V170(at, ()) => (170, *at),
            Tk::V171(at) => (171, *at),
            Tk::V172 { at } => (172, *at),
            Tk::V173(at, ()) => (173, *at),
            Tk::V174(at) => (174, *at),
            Tk::V175 { at } => (175, *at),
            Tk::V176(at, ()) => (176, *at),
            Tk::V177(at) => (177, *at),
            Tk::V178 { at } => (178, *at),
            Tk::V179(at, ()) => (179, *at),
            Tk::V180(at) => (180, *at),
            Tk::V181 { at } => (181, *at),
            Tk::V182(at, ()) => (182, *at),
            Tk::V183(at) => (183, *at),
            Tk::V184 { at } => (184, *at),
            Tk::V185(at, ()) => (185, *at),
            Tk::V186(at) => (186, *at),
            Tk::V187 { at } => (187, *at),
            Tk::V188(at, ()) => (188, *at),
            Tk::V189(at) => (189, *at),
            Tk::V190 { at } => (190, *at),
            Tk::V191(at, ()) => (191, *at),
            Tk::V192(at) => (192, *at),
            Tk::V193 { at } => (193, *at),
            Tk::V194(at, ()) => (194, *at),
            Tk::V195(at) => (195, *at),
            Tk::V196 { at } => (196, *at),
            Tk::V197(at, ()) => (197, *at),
            Tk::V198(at) => (198, *at),
            Tk::V199 { at } => (199, *at),
            Tk::V200(at, ()) => (200, *at),
            Tk::V201(at) => (201, *at),
            Tk::V202 { at } => (202, *at),
            Tk::V203(at, ()) => (203, *at),
            Tk::V204(at) => (204, *at),
            Tk::V205 { at } => (205, *at),
            Tk::V206(at, ()) => (206, *at),
            Tk::V207(at) => (207, *at),
            Tk::V208 { at } => (208, *at),
            Tk::V209(at, ()) => (209, *at),
            Tk::V210(at) => (210, *at),
            Tk::V211 { at } => (211, *at),
            Tk::V212(at, ()) => (212, *at),
            Tk::V213(at) => (213, *at),
            Tk::V214 { at } => (214, *at),
            Tk::V215(at, ()) => (215, *at),
            Tk::V216(at) => (216, *at),
            Tk::V217 { at } => (217, *at),
            Tk::V218(at, ()) => (218, *at),
            Tk::V219(at) => (219, *at),
            Tk::V220 { at } => (220, *at),
            Tk::V221(at, ()) => (221, *at),
            Tk::V222(at) => (222, *at),
            Tk::V223 { at } => (223, *at),
            Tk::V224(at, ()) => (224, *at),
            Tk::V225(at) => (225, *at),
            Tk::V226 { at } => (226, *at),
            Tk::V227(at, ()) => (227, *at),
            Tk::V228(at) => (228, *at),
            Tk::V229 { at } => (229, *at),
            Tk::V230(at, ()) => (230, *at),
            Tk::V231(at) => (231, *at),
            Tk::V232 { at } => (232, *at),
            Tk::V233(at, ()) => (233, *at),
            Tk::V234(at) => (234, *at),
            Tk::V235 { at } => (235, *at),
            Tk::V236(at, ()) => (236, *at),
            Tk::V237(at) => (237, *at),
            Tk::V238 { at } => (238, *at),
            Tk::V239(at, ()) => (239, *at),
            Tk::V240(at) => (240, *at),
            Tk::V241 { at } => (241, *at),
            Tk::V242(at, ()) => (242, *at),
            Tk::V243(at) => (243, *at),
            Tk::V244 { at } => (244, *at),
            Tk::V245(at, ()) => (245, *at),
            Tk::V246(at) => (246, *at),
            Tk::V247 { at } => (247, *at),
            Tk::V248(at, ()) => (248, *at),
            Tk::V249(at) => (249, *at),
            Tk::V250 { at } => (250, *at),
            Tk::V251(at, ()) => (251, *at),
            Tk::V252(at) => (252, *at),
            Tk::V253 { at } => (253, *at),
            Tk::V254(at, ()) => (254, *at),
            Tk::V255(at) => (255, *at),
            Tk::V256 { at } => (256, *at),
            Tk::V257(at, ()) => (257, *at),
            Tk::V258(at) => (258, *at),
            Tk::V259 { at } => (259, *at),
            Tk::V260(at, ()) => (260, *at),
            Tk::V261(at) => (261, *at),
            Tk::V262 { at } => (262, *at),
            Tk::V263(at, ()) => (263, *at),
            Tk::V264(at) => (264, *at),
            Tk::V265 { at } => (265, *at),
            Tk::V266(at, ()) => (266, *at),
            Tk::V267(at) => (267, *at),
            Tk::V268 { at } => (268, *at),
            Tk::V269(at, ()) => (269, *at),
            Tk::V270(at) => (270, *at),
            Tk::V271 { at } => (271, *at),
            Tk::V272(at, ()) => (272, *at),
            Tk::V273(at) => (273, *at),
            Tk::V274 { at } => (274, *at),
            Tk::V275(at, ()) => (275, *at),
            Tk::V276(at) => (276, *at),
            Tk::V277 { at } => (277, *at),
            Tk::V278(at, ()) => (278, *at),
            Tk::V279(at) => (279, *at),
            Tk::V280 { at } => (280, *at),
            Tk::V281(at, ()) => (281, *at),
            Tk::V282(at) => (282, *at),
            Tk::V283 { at } => (283, *at),
            Tk::V284(at, ()) => (284, *at),
            Tk::V285(at) => (285, *at),
            Tk::V286 { at } => (286, *at),
            Tk::V287(at, ()) => (287, *at),
            Tk::V288(at) => (288, *at),
            Tk::V289 { at } => (289, *at),
            Tk::V290(at, ()) => (290, *at),
            Tk::V291(at) => (291, *at),
            Tk::V292 { at } => (292, *at),
            Tk::V293(at, ()) => (293, *at),
            Tk::V294(at) => (294, *at),
            Tk::V295 { at } => (295, *at),
            Tk::V296(at, ()) => (296, *at),
            Tk::V297(at) => (297, *at),
            Tk::V298 { at } => (298, *at),
            Tk::V299(at, ()) => (299, *at),
            Tk::V300(at) => (300, *at),
            Tk::V301 { at } => (301, *at),
            Tk::V302(at, ()) => (302, *at),
            Tk::V303(at) => (303, *at),
            Tk::V304 { at } => (304, *at),
            Tk::V305(at, ()) => (305, *at),
            Tk::V306(at) => (306, *at),
            Tk::V307 { at } => (307, *at),
            Tk::V308(at, ()) => (308, *at),
            Tk::V309(at) => (309, *at),
            Tk::V310 { at } => (310, *at),
            Tk::V311(at, ()) => (311, *at),
            Tk::V312(at) => (312, *at),
            Tk::V313 { at } => (313, *at),
            Tk::V314(at, ()) => (314, *at),
            Tk::V315(at) => (315, *at),
            Tk::V316 { at } => (316, *at),
            Tk::V317(at, ()) => (317, *at),
            Tk::V318(at) => (318, *at),
            Tk::V319 { at } => (319, *at),
        }
    }
}
#[derive(Debug, EnumIndex)]
pub enum Nt {
    V0(usize),
    V1{ at: usize },
    V2(usize, ()),
    V3(usize),
    V4{ at: usize },
    V5(usize, ()),
    V6(usize),
    V7{ at: usize },
    V8(usize, ()),
    V9(usize),
    V10{ at: usize },
    V11(usize, ()),
    V12(usize),
    V13{ at: usize },
    V14(usize, ()),
    V15(usize),
    V16{ at: usize },
    V17(usize, ()),
    V18(usize),
    V19{ at: usize },
    V20(usize, ()),
    V21(usize),
    V22{ at: usize },
    V23(usize, ()),
    V24(usize),
    V25{ at: usize },
    V26(usize, ()),
    V27(usize),
    V28{ at: usize },
    V29(usize, ()),
    V30(usize),
    V31{ at: usize },
    V32(usize, ()),
    V33(usize),
    V34{ at: usize },
    V35(usize, ()),
    V36(usize),
    V37{ at: usize },
    V38(usize, ()),
    V39(usize),
    V40{ at: usize },
    V41(usize, ()),
    V42(usize),
    V43{ at: usize },
    V44(usize, ()),
    V45(usize),
    V46{ at: usize },
    V47(usize, ()),
    V48(usize),
    V49{ at: usize },
    V50(usize, ()),
    V51(usize),
    V52{ at: usize },
    V53(usize, ()),
    V54(usize),
    V55{ at: usize },
    V56(usize, ()),
    V57(usize),
    V58{ at: usize },
    V59(usize, ()),
    V60(usize),
    V61{ at: usize },
    V62(usize, ()),
    V63(usize),
    V64{ at: usize },
    V65(usize, ()),
    V66(usize),
    V67{ at: usize },
    V68(usize, ()),
    V69(usize),
    V70{ at: usize },
    V71(usize, ()),
    V72(usize),
    V73{ at: usize },
    V74(usize, ()),
    V75(usize),
    V76{ at: usize },
    V77(usize, ()),
    V78(usize),
    V79{ at: usize },
    V80(usize, ()),
    V81(usize),
    V82{ at: usize },
    V83(usize, ()),
    V84(usize),
    V85{ at: usize },
    V86(usize, ()),
    V87(usize),
    V88{ at: usize },
    V89(usize, ()),
    V90(usize),
    V91{ at: usize },
    V92(usize, ()),
    V93(usize),
    V94{ at: usize },
    V95(usize, ()),
    V96(usize),
    V97{ at: usize },
    V98(usize, ()),
    V99(usize),
    V100{ at: usize },
    V101(usize, ()),
    V102(usize),
    V103{ at: usize },
    V104(usize, ()),
    V105(usize),
    V106{ at: usize },
    V107(usize, ()),
    V108(usize),
    V109{ at: usize },
    V110(usize, ()),
    V111(usize),
    V112{ at: usize },
    V113(usize, ()),
    V114(usize),
    V115{ at: usize },
    V116(usize, ()),
    V117(usize),
    V118{ at: usize },
    V119(usize, ()),
    V120(usize),
    V121{ at: usize },
    V122(usize, ()),
    V123(usize),
    V124{ at: usize },
    V125(usize, ()),
    V126(usize),
    V127{ at: usize },
    V128(usize, ()),
    V129(usize),
    V130{ at: usize },
    V131(usize, ()),
    V132(usize),
    V133{ at: usize },
    V134(usize, ()),
    V135(usize),
    V136{ at: usize },
    V137(usize, ()),
    V138(usize),
    V139{ at: usize },
    V140(usize, ()),
    V141(usize),
    V142{ at: usize },
    V143(usize, ()),
    V144(usize),
    V145{ at: usize },
    V146(usize, ()),
    V147(usize),
    V148{ at: usize },
    V149(usize, ()),
    V150(usize),
    V151{ at: usize },
    V152(usize, ()),
    V153(usize),
    V154{ at: usize },
    V155(usize, ()),
    V156(usize),
    V157{ at: usize },
    V158(usize, ()),
    V159(usize),
    V160{ at: usize },
    V161(usize, ()),
    V162(usize),
    V163{ at: usize },
    V164(usize, ()),
    V165(usize),
    V166{ at: usize },
    V167(usize, ()),
    V168(usize),
    V169{ at: usize },
    V170(usize, ()),
    V171(usize),
    V172{ at: usize },
    V173(usize, ()),
    V174(usize),
    V175{ at: usize },
    V176(usize, ()),
    V177(usize),
    V178{ at: usize },
    V179(usize, ()),
    V180(usize),
    V181{ at: usize },
    V182(usize, ()),
    V183(usize),
    V184{ at: usize },
    V185(usize, ()),
    V186(usize),
    V187{ at: usize },
    V188(usize, ()),
    V189(usize),
    V190{ at: usize },
    V191(usize, ()),
    V192(usize),
    V193{ at: usize },
    V194(usize, ()),
    V195(usize),
    V196{ at: usize },
    V197(usize, ()),
    V198(usize),
    V199{ at: usize },
    V200(usize, ()),
    V201(usize),
    V202{ at: usize },
    V203(usize, ()),
    V204(usize),
    V205{ at: usize },
    V206(usize, ()),
    V207(usize),
    V208{ at: usize },
    V209(usize, ()),
    V210(usize),
    V211{ at: usize },
    V212(usize, ()),
    V213(usize),
    V214{ at: usize },
    V215(usize, ()),
    V216(usize),
    V217{ at: usize },
    V218(usize, ()),
    V219(usize),
    V220{ at: usize },
    V221(usize, ()),
    V222(usize),
    V223{ at: usize },
    V224(usize, ()),
    V225(usize),
    V226{ at: usize },
    V227(usize, ()),
    V228(usize),
    V229{ at: usize },
    V230(usize, ()),
    V231(usize),
    V232{ at: usize },
    V233(usize, ()),
    V234(usize),
    V235{ at: usize },
    V236(usize, ()),
    V237(usize),
    V238{ at: usize },
    V239(usize, ()),
    V240(usize),
    V241{ at: usize },
    V242(usize, ()),
    V243(usize),
    V244{ at: usize },
    V245(usize, ()),
    V246(usize),
    V247{ at: usize },
    V248(usize, ()),
    V249(usize),
    V250{ at: usize },
    V251(usize, ()),
    V252(usize),
    V253{ at: usize },
    V254(usize, ()),
    V255(usize),
    V256{ at: usize },
    V257(usize, ()),
    V258(usize),
    V259{ at: usize },
    V260(usize, ()),
    V261(usize),
    V262{ at: usize },
    V263(usize, ()),
    V264(usize),
    V265{ at: usize },
    V266(usize, ()),
    V267(usize),
    V268{ at: usize },
    V269(usize, ()),
    V270(usize),
    V271{ at: usize },
    V272(usize, ()),
    V273(usize),
    V274{ at: usize },
    V275(usize, ()),
    V276(usize),
    V277{ at: usize },
    V278(usize, ()),
    V279(usize),
    V280{ at: usize },
    V281(usize, ()),
    V282(usize),
    V283{ at: usize },
    V284(usize, ()),
    V285(usize),
    V286{ at: usize },
    V287(usize, ()),
    V288(usize),
    V289{ at: usize },
    V290(usize, ()),
    V291(usize),
    V292{ at: usize },
    V293(usize, ()),
    V294(usize),
    V295{ at: usize },
    V296(usize, ()),
    V297(usize),
    V298{ at: usize },
    V299(usize, ()),
    V300(usize),
    V301{ at: usize },
    V302(usize, ()),
    V303(usize),
    V304{ at: usize },
    V305(usize, ()),
    V306(usize),
    V307{ at: usize },
    V308(usize, ()),
    V309(usize),
    V310{ at: usize },
    V311(usize, ()),
    V312(usize),
    V313{ at: usize },
    V314(usize, ()),
    V315(usize),
    V316{ at: usize },
    V317(usize, ()),
    V318(usize),
    V319{ at: usize },
}
impl Nt {
    pub fn make(v: usize, at: usize) -> Nt {
        match v {
            0 => Nt::V0(at),
            1 => Nt::V1 { at },
            2 => Nt::V2(at, ()),
            3 => Nt::V3(at),
            4 => Nt::V4 { at },
            5 => Nt::V5(at, ()),
            6 => Nt::V6(at),
            7 => Nt::V7 { at },
            8 => Nt::V8(at, ()),
            9 => Nt::V9(at),
            10 => Nt::V10 { at },
            11 => Nt::V11(at, ()),
            12 => Nt::V12(at),
            13 => Nt::V13 { at },
            14 => Nt::V14(at, ()),
            15 => Nt::V15(at),
            16 => Nt::V16 { at },
            17 => Nt::V17(at, ()),
            18 => Nt::V18(at),
            19 => Nt::V19 { at },
            20 => Nt::V20(at, ()),
            21 => Nt::V21(at),
            22 => Nt::V22 { at },
            23 => Nt::V23(at, ()),
            24 => Nt::V24(at),
            25 => Nt::V25 { at },
            26 => Nt::V26(at, ()),
            27 => Nt::V27(at),
            28 => Nt::V28 { at },
            29 => Nt::V29(at, ()),
            30 => Nt::V30(at),
            31 => Nt::V31 { at },
            32 => Nt::V32(at, ()),
            33 => Nt::V33(at),
            34 => Nt::V34 { at },
            35 => Nt::V35(at, ()),
            36 => Nt::V36(at),
            37 => Nt::V37 { at },
            38 => Nt::V38(at, ()),
            39 => Nt::V39(at),
            40 => Nt::V40 { at },
            41 => Nt::V41(at, ()),
            42 => Nt::V42(at),
            43 => Nt::V43 { at },
            44 => Nt::V44(at, ()),
            45 => Nt::V45(at),
            46 => Nt::V46 { at },
            47 => Nt::V47(at, ()),
            48 => Nt::V48(at),
            49 => Nt::V49 { at },
            50 => Nt::V50(at, ()),
            51 => Nt::V51(at),
            52 => Nt::V52 { at },
            53 => Nt::V53(at, ()),
            54 => Nt::V54(at),
            55 => Nt::V55 { at },
            56 => Nt::V56(at, ()),
            57 => Nt::V57(at),
            58 => Nt::V58 { at },
            59 => Nt::V59(at, ()),
            60 => Nt::V60(at),
            61 => Nt::V61 { at },
            62 => Nt::V62(at, ()),
            63 => Nt::V63(at),
            64 => Nt::V64 { at },
            65 => Nt::V65(at, ()),
            66 => Nt::V66(at),
            67 => Nt::V67 { at },
            68 => Nt::V68(at, ()),
            69 => Nt::V69(at),
            70 => Nt::V70 { at },
            71 => Nt::V71(at, ()),
            72 => Nt::V72(at),
            73 => Nt::V73 { at },
            74 => Nt::V74(at, ()),
            75 => Nt::V75(at),
            76 => Nt::V76 { at },
            77 => Nt::V77(at, ()),
            78 => Nt::V78(at),
            79 => Nt::V79 { at },
            80 => Nt::V80(at, ()),
            81 => Nt::V81(at),
            82 => Nt::V82 { at },
            83 => Nt::V83(at, ()),
            84 => Nt::V84(at),
            85 => Nt::V85 { at },
            86 => Nt::V86(at, ()),
            87 => Nt::V87(at),
            88 => Nt::V88 { at },
            89 => Nt::V89(at, ()),
            90 => Nt::V90(at),
            91 => Nt::V91 { at },
            92 => Nt::V92(at, ()),
            93 => Nt::V93(at),
            94 => Nt::V94 { at },
            95 => Nt::V95(at, ()),
            96 => Nt::V96(at),
            97 => Nt::V97 { at },
            98 => Nt::V98(at, ()),
            99 => Nt::V99(at),
            100 => Nt::V100 { at },
            101 => Nt::V101(at, ()),
            102 => Nt::V102(at),
            103 => Nt::V103 { at },
            104 => Nt::V104(at, ()),
            105 => Nt::V105(at),
            106 => Nt::V106 { at },
            107 => Nt::V107(at, ()),
            108 => Nt::V108(at),
            109 => Nt::V109 { at },
            110 => Nt::V110(at, ()),
            111 => Nt::V111(at),
            112 => Nt::V112 { at },
            113 => Nt::V113(at, ()),
            114 => Nt::V114(at),
            115 => Nt::V115 { at },
            116 => Nt::V116(at, ()),
            117 => Nt::V117(at),
            118 => Nt::V118 { at },
            119 => Nt::V119(at, ()),
            120 => Nt::V120(at),
            121 => Nt::V121 { at },
            122 => Nt::V122(at, ()),
            123 => Nt::V123(at),
            124 => Nt::V124 { at },
            125 => Nt::V125(at, ()),
            126 => Nt::V126(at),
            127 => Nt::V127 { at },
            128 => Nt::V128(at, ()),
            129 => Nt::V129(at),
            130 => Nt::V130 { at },
            131 => Nt::V131(at, ()),
            132 => Nt::V132(at),
            133 => Nt::V133 { at },
            134 => Nt::V134(at, ()),
            135 => Nt::V135(at),
            136 => Nt::V136 { at },
            137 => Nt::V137(at, ()),
            138 => Nt::V138(at),
            139 => Nt::V139 { at },
            140 => Nt::V140(at, ()),
            141 => Nt::V141(at),
            142 => Nt::V142 { at },
            143 => Nt::V143(at, ()),
            144 => Nt::V144(at),
            145 => Nt::V145 { at },
            146 => Nt::V146(at, ()),
            147 => Nt::V147(at),
            148 => Nt::V148 { at },
            149 => Nt::V149(at, ()),
            150 => Nt::V150(at),
            151 => Nt::V151 { at },
            152 => Nt::V152(at, ()),
            153 => Nt::V153(at),
            154 => Nt::V154 { at },
            155 => Nt::V155(at, ()),
            156 => Nt::V156(at),
            157 => Nt::V157 { at },
            158 => Nt::V158(at, ()),
            159 => Nt::V159(at),
            160 => Nt::V160 { at },
            161 => Nt::V161(at, ()),
            162 => Nt::V162(at),
            163 => Nt::V163 { at },
            164 => Nt::V164(at, ()),
            165 => Nt::V165(at),
            166 => Nt::V166 { at },
            167 => Nt::V167(at, ()),
            168 => Nt::V168(at),
            169 => Nt::V169 { at },
            170 => Nt::V170(at, ()),
            171 => Nt::V171(at),
            172 => Nt::V172 { at },
            173 => Nt::V173(at, ()),
            174 => Nt::V174(at),
            175 => Nt::V175 { at },
            176 => Nt::V176(at, ()),
            177 => Nt::V177(at),
            178 => Nt::V178 { at },
            179 => Nt::V179(at, ()),
            180 => Nt::V180(at),
            181 => Nt::V181 { at },
            182 => Nt::V182(at, ()),
            183 => Nt::V183(at),
            184 => Nt::V184 { at },
            185 => Nt::V185(at, ()),
            186 => Nt::V186(at),
            187 => Nt::V187 { at },
            188 => Nt::V188(at, ()),
            189 => Nt::V189(at),
            190 => Nt::V190 { at },
            191 => Nt::V191(at, ()),
            192 => Nt::V192(at),
            193 => Nt::V193 { at },
            194 => Nt::V194(at, ()),
            195 => Nt::V195(at),
            196 => Nt::V196 { at },
            197 => Nt::V197(at, ()),
            198 => Nt::V198(at),
            199 => Nt::V199 { at },
            200 => Nt::V200(at, ()),
            201 => Nt::V201(at),
            202 => Nt::V202 { at },
            203 => Nt::V203(at, ()),
            204 => Nt::V204(at),
            205 => Nt::V205 { at },
            206 => Nt::V206(at, ()),
            207 => Nt::V207(at),
            208 => Nt::V208 { at },
            209 => Nt::V209(at, ()),
            210 => Nt::V210(at),
            211 => Nt::V211 { at },
            212 => Nt::V212(at, ()),
            213 => Nt::V213(at),
            214 => Nt::V214 { at },
            215 => Nt::V215(at, ()),
            216 => Nt::V216(at),
            217 => Nt::V217 { at },
            218 => Nt::V218(at, ()),
            219 => Nt::V219(at),
            220 => Nt::V220 { at },
            221 => Nt::V221(at, ()),
            222 => Nt::V222(at),
            223 => Nt::V223 { at },
            224 => Nt::V224(at, ()),
            225 => Nt::V225(at),
            226 => Nt::V226 { at },
            227 => Nt::V227(at, ()),
            228 => Nt::V228(at),
            229 => Nt::V229 { at },
            230 => Nt::V230(at, ()),
            231 => Nt::V231(at),
            232 => Nt::V232 { at },
            233 => Nt::V233(at, ()),
            234 => Nt::V234(at),
            235 => Nt::V235 { at },
            236 => Nt::V236(at, ()),
            237 => Nt::V237(at),
            238 => Nt::V238 { at },
            239 => Nt::V239(at, ()),
            240 => Nt::V240(at),
            241 => Nt::V241 { at },
            242 => Nt::V242(at, ()),
            243 => Nt::V243(at),
            244 => Nt::V244 { at },
            245 => Nt::V245(at, ()),
            246 => Nt::V246(at),
            247 => Nt::V247 { at },
            248 => Nt::V248(at, ()),
            249 => Nt::V249(at),
            250 => Nt::V250 { at },
            251 => Nt::V251(at, ()),
            252 => Nt::V252(at),
            253 => Nt::V253 { at },
            254 => Nt::V254(at, ()),
            255 => Nt::V255(at),
            256 => Nt::V256 { at },
            257 => Nt::V257(at, ()),
            258 => Nt::V258(at),
            259 => Nt::V259 { at },
            260 => Nt::V260(at, ()),
            261 => Nt::V261(at),
            262 => Nt::V262 { at },
            263 => Nt::V263(at, ()),
            264 => Nt::V264(at),
            265 => Nt::V265 { at },
            266 => Nt::V266(at, ()),
            267 => Nt::V267(at),
            268 => Nt::V268 { at },
            269 => Nt::V269(at, ()),
            270 => Nt::V270(at),
            271 => Nt::V271 { at },
            272 => Nt::V272(at, ()),
            273 => Nt::V273(at),
            274 => Nt::V274 { at },
            275 => Nt::V275(at, ()),
            276 => Nt::V276(at),
            277 => Nt::V277 { at },
            278 => Nt::V278(at, ()),
            279 => Nt::V279(at),
            280 => Nt::V280 { at },
            281 => Nt::V281(at, ()),
            282 => Nt::V282(at),
            283 => Nt::V283 { at },
            284 => Nt::V284(at, ()),
            285 => Nt::V285(at),
            286 => Nt::V286 { at },
            287 => Nt::V287(at, ()),
            288 => Nt::V288(at),
            289 => Nt::V289 { at },
            290 => Nt::V290(at, ()),
            291 => Nt::V291(at),
            292 => Nt::V292 { at },
            293 => Nt::V293(at, ()),
            294 => Nt::V294(at),
            295 => Nt::V295 { at },
            296 => Nt::V296(at, ()),
            297 => Nt::V297(at),
            298 => Nt::V298 { at },
            299 => Nt::V299(at, ()),
            300 => Nt::V300(at),
            301 => Nt::V301 { at },
            302 => Nt::V302(at, ()),
            303 => Nt::V303(at),
            304 => Nt::V304 { at },
            305 => Nt::V305(at, ()),
            306 => Nt::V306(at),
            307 => Nt::V307 { at },
            308 => Nt::V308(at, ()),
            309 => Nt::V309(at),
            310 => Nt::V310 { at },
            311 => Nt::V311(at, ()),
            312 => Nt::V312(at),
            313 => Nt::V313 { at },
            314 => Nt::V314(at, ()),
            315 => Nt::V315(at),
            316 => Nt::V316 { at },
            317 => Nt::V317(at, ()),
            318 => Nt::V318(at),
            319 => Nt::V319 { at },
            _ => unreachable!(),
        }
    }
    /// (variant, payload)
    pub fn look(&self) -> (usize, usize) {
        match self {
            Nt::V0(at) => (0, *at),
            Nt::V1 { at } => (1, *at),
            Nt::V2(at, ()) => (2, *at),
            Nt::V3(at) => (3, *at),
            Nt::V4 { at } => (4, *at),
            Nt::V5(at, ()) => (5, *at),
            Nt::V6(at) => (6, *at),
            Nt::V7 { at } => (7, *at),
            Nt::V8(at, ()) => (8, *at),
            Nt::V9(at) => (9, *at),
            Nt::V10 { at } => (10, *at),
            Nt::V11(at, ()) => (11, *at),
            Nt::V12(at) => (12, *at),
            Nt::V13 { at } => (13, *at),
            Nt::V14(at, ()) => (14, *at),
            Nt::V15(at) => (15, *at),
            Nt::V16 { at } => (16, *at),
            Nt::V17(at, ()) => (17, *at),
            Nt::V18(at) => (18, *at),
            Nt::V19 { at } => (19, *at),
            Nt::V20(at, ()) => (20, *at),
            Nt::V21(at) => (21, *at),
            Nt::V22 { at } => (22, *at),
            Nt::V23(at, ()) => (23, *at),
            Nt::V24(at) => (24, *at),
            Nt::V25 { at } => (25, *at),
            Nt::V26(at, ()) => (26, *at),
            Nt::V27(at) => (27, *at),
            Nt::V28 { at } => (28, *at),
            Nt::V29(at, ()) => (29, *at),
            Nt::V30(at) => (30, *at),
            Nt::V31 { at } => (31, *at),
            Nt::V32(at, ()) => (32, *at),
            Nt::V33(at) => (33, *at),
            Nt::V34 { at } => (34, *at),
            Nt::V35(at, ()) => (35, *at),
            Nt::V36(at) => (36, *at),
            Nt::V37 { at } => (37, *at),
            Nt::V38(at, ()) => (38, *at),
            Nt::V39(at) => (39, *at),
            Nt::V40 { at } => (40, *at),
            Nt::V41(at, ()) => (41, *at),
            Nt::V42(at) => (42, *at),
            Nt::V43 { at } => (43, *at),
            Nt::V44(at, ()) => (44, *at),
            Nt::V45(at) => (45, *at),
            Nt::V46 { at } => (46, *at),
            Nt::V47(at, ()) => (47, *at),
            Nt::V48(at) => (48, *at),
            Nt::V49 { at } => (49, *at),
            Nt::V50(at, ()) => (50, *at),
            Nt::V51(at) => (51, *at),
            Nt::V52 { at } => (52, *at),
            Nt::V53(at, ()) => (53, *at),
            Nt::V54(at) => (54, *at),
            Nt::V55 { at } => (55, *at),
            Nt::V56(at, ()) => (56, *at),
            Nt::V57(at) => (57, *at),
            Nt::V58 { at } => (58, *at),
            Nt::V59(at, ()) => (59, *at),
            Nt::V60(at) => (60, *at),
            Nt::V61 { at } => (61, *at),
            Nt::V62(at, ()) => (62, *at),
            Nt::V63(at) => (63, *at),
            Nt::V64 { at } => (64, *at),
            Nt::V65(at, ()) => (65, *at),
            Nt::V66(at) => (66, *at),
            Nt::V67 { at } => (67, *at),
            Nt::V68(at, ()) => (68, *at),
            Nt::V69(at) => (69, *at),
            Nt::V70 { at } => (70, *at),
            Nt::V71(at, ()) => (71, *at),
            Nt::V72(at) => (72, *at),
            Nt::V73 { at } => (73, *at),
            Nt::V74(at, ()) => (74, *at),
            Nt::V75(at) => (75, *at),
            Nt::V76 { at } => (76, *at),
            Nt::V77(at, ()) => (77, *at),
            Nt::V78(at) => (78, *at),
            Nt::V79 { at } => (79, *at),
            Nt::V80(at, ()) => (80, *at),
            Nt::V81(at) => (81, *at),
            Nt::V82 { at } => (82, *at),
            Nt::V83(at, ()) => (83, *at),
            Nt::V84(at) => (84, *at),
            Nt::V85 { at } => (85, *at),
            Nt::V86(at, ()) => (86, *at),
            Nt::V87(at) => (87, *at),
            Nt::V88 { at } => (88, *at),
            Nt::V89(at, ()) => (89, *at),
            Nt::V90(at) => (90, *at),
            Nt::V91 { at } => (91, *at),
            Nt::V92(at, ()) => (92, *at),
            Nt::V93(at) => (93, *at),
            Nt::V94 { at } => (94, *at),
            Nt::V95(at, ()) => (95, *at),
            Nt::V96(at) => (96, *at),
            Nt::V97 { at } => (97, *at),
            Nt::V98(at, ()) => (98, *at),
            Nt::V99(at) => (99, *at),
            Nt::V100 { at } => (100, *at),
            Nt::V101(at, ()) => (101, *at),
            Nt::V102(at) => (102, *at),
            Nt::V103 { at } => (103, *at),
            Nt::V104(at, ()) => (104, *at),
            Nt::V105(at) => (105, *at),
            Nt::V106 { at } => (106, *at),
            Nt::V107(at, ()) => (107, *at),
            Nt::V108(at) => (108, *at),
            Nt::V109 { at } => (109, *at),
            Nt::V110(at, ()) => (110, *at),
            Nt::V111(at) => (111, *at),
            Nt::V112 { at } => (112, *at),
            Nt::V113(at, ()) => (113, *at),
            Nt::V114(at) => (114, *at),
            Nt::V115 { at } => (115, *at),
            Nt::V116(at, ()) => (116, *at),
            Nt::V117(at) => (117, *at),
            Nt::V118 { at } => (118, *at),
            Nt::V119(at, ()) => (119, *at),
            Nt::V120(at) => (120, *at),
            Nt::V121 { at } => (121, *at),
            Nt::V122(at, ()) => (122, *at),
            Nt::V123(at) => (123, *at),
            Nt::V124 { at } => (124, *at),
            Nt::V125(at, ()) => (125, *at),
            Nt::V126(at) => (126, *at),
            Nt::V127 { at } => (127, *at),
            Nt::V128(at, ()) => (128, *at),
            Nt::V129(at) => (129, *at),
            Nt::V130 { at } => (130, *at),
            Nt::V131(at, ()) => (131, *at),
            Nt::V132(at) => (132, *at),
            Nt::V133 { at } => (133, *at),
            Nt::V134(at, ()) => (134, *at),
            Nt::V135(at) => (135, *at),
            Nt::V136 { at } => (136, *at),
            Nt::V137(at, ()) => (137, *at),
            Nt::V138(at) => (138, *at),
            Nt::V139 { at } => (139, *at),
            Nt::V140(at, ()) => (140, *at),
            Nt::V141(at) => (141, *at),
            Nt::V142 { at } => (142, *at),
            Nt::V143(at, ()) => (143, *at),
            Nt::V144(at) => (144, *at),
            Nt::V145 { at } => (145, *at),
            Nt::V146(at, ()) => (146, *at),
            Nt::V147(at) => (147, *at),
            Nt::V148 { at } => (148, *at),
            Nt::V149(at, ()) => (149, *at),
            Nt::V150(at) => (150, *at),
            Nt::V151 { at } => (151, *at),
            Nt::V152(at, ()) => (152, *at),
            Nt::V153(at) => (153, *at),
            Nt::V154 { at } => (154, *at),
            Nt::V155(at, ()) => (155, *at),
            Nt::V156(at) => (156, *at),
            Nt::V157 { at } => (157, *at),
            Nt::V158(at, ()) => (158, *at),
            Nt::V159(at) => (159, *at),
            Nt::V160 { at } => (160, *at),
            Nt::V161(at, ()) => (161, *at),
            Nt::V162(at) => (162, *at),
            Nt::V163 { at } => (163, *at),
            Nt::V164(at, ()) => (164, *at),
            Nt::V165(at) => (165, *at),
            Nt::V166 { at } => (166, *at),
            Nt::V167(at, ()) => (167, *at),
            Nt::V168(at) => (168, *at),
            Nt::V169 { at } => (169, *at),
            Nt::V170(at, ()) => (170, *at),
            Nt::V171(at) => (171, *at),
            Nt::V172 { at } => (172, *at),
            Nt::V173(at, ()) => (173, *at),
            Nt::V174(at) => (174, *at),
            Nt::V175 { at } => (175, *at),
            Nt::V176(at, ()) => (176, *at),
            Nt::V177(at) => (177, *at),
            Nt::V178 { at } => (178, *at),
            Nt::V179(at, ()) => (179, *at),
            Nt::V180(at) => (180, *at),
            Nt::V181 { at } => (181, *at),
            Nt::V182(at, ()) => (182, *at),
            Nt::V183(at) => (183, *at),
            Nt::V184 { at } => (184, *at),
            Nt::V185(at, ()) => (185, *at),
            Nt::V186(at) => (186, *at),
            Nt::V187 { at } => (187, *at),
            Nt::V188(at, ()) => (188, *at),
            Nt::V189(at) => (189, *at),
            Nt::V190 { at } => (190, *at),
            Nt::V191(at, ()) => (191, *at),
            Nt::V192(at) => (192, *at),
            Nt::V193 { at } => (193, *at),
            Nt::V194(at, ()) => (194, *at),
            Nt::V195(at) => (195, *at),
            Nt::V196 { at } => (196, *at),
            Nt::V197(at, ()) => (197, *at),
            Nt::V198(at) => (198, *at),
            Nt::V199 { at } => (199, *at),
            Nt::V200(at, ()) => (200, *at),
            Nt::V201(at) => (201, *at),
            Nt::V202 { at } => (202, *at),
            Nt::V203(at, ()) => (203, *at),
            Nt::V204(at) => (204, *at),
            Nt::V205 { at } => (205, *at),
            Nt::V206(at, ()) => (206, *at),
            Nt::V207(at) => (207, *at),
            Nt::V208 { at } => (208, *at),
            Nt::V209(at, ()) => (209, *at),
            Nt::V210(at) => (210, *at),
            Nt::V211 { at } => (211, *at),
            Nt::V212(at, ()) => (212, *at),
            Nt::V213(at) => (213, *at),
            Nt::V214 { at } => (214, *at),
            Nt::V215(at, ()) => (215, *at),
            Nt::V216(at) => (216, *at),
            Nt::V217 { at } => (217, *at),
            Nt::V218(at, ()) => (218, *at),
            Nt::V219(at) => (219, *at),
            Nt::V220 { at } => (220, *at),
            Nt::V221(at, ()) => (221, *at),
            Nt::V222(at) => (222, *at),
            Nt::V223 { at } => (223, *at),
            Nt::V224(at, ()) => (224, *at),
            Nt::V225(at) => (225, *at),
            Nt::V226 { at } => (226, *at),
            Nt::V227(at, ()) => (227, *at),
            Nt::V228(at) => (228, *at),
            Nt::V229 { at } => (229, *at),
            Nt::V230(at, ()) => (230, *at),
            Nt::V231(at) => (231, *at),
            Nt::V232 { at } => (232, *at),
            Nt::V233(at, ()) => (233, *at),
            Nt::V234(at) => (234, *at),
            Nt::V235 { at } => (235, *at),
            Nt::V236(at, ()) => (236, *at),
            Nt::V237(at) => (237, *at),
            Nt::V238 { at } => (238, *at),
            Nt::V239(at, ()) => (239, *at),
            Nt::V240(at) => (240, *at),
            Nt::V241 { at } => (241, *at),
            Nt::V242(at, ()) => (242, *at),
            Nt::V243(at) => (243, *at),
            Nt::V244 { at } => (244, *at),
            Nt::V245(at, ()) => (245, *at),
            Nt::V246(at) => (246, *at),
            Nt::V247 { at } => (247, *at),
            Nt::V248(at, ()) => (248, *at),
            Nt::V249(at) => (249, *at),
            Nt::V250 { at } => (250, *at),
            Nt::V251(at, ()) => (251, *at),
            Nt::V252(at) => (252, *at),
            Nt::V253 { at } => (253, *at),
            Nt::V254(at, ()) => (254, *at),
            Nt::V255(at) => (255, *at),
            Nt::V256 { at } => (256, *at),
            Nt::V257(at, ()) => (257, *at),
            Nt::V258(at) => (258, *at),
            Nt::V259 { at } => (259, *at),
            Nt::V260(at, ()) => (260, *at),
            Nt::V261(at) => (261, *at),
            Nt::V262 { at } => (262, *at),
            Nt::V263(at, ()) => (263, *at),
            Nt::V264(at) => (264, *at),
            Nt::V265 { at } => (265, *at),
            Nt::V266(at, ()) => (266, *at),
            Nt::V267(at) => (267, *at),
            Nt::V268 { at } => (268, *at),
            Nt::V269(at, ()) => (269, *at),
            Nt::V270(at) => (270, *at),
            Nt::V271 { at } => (271, *at),
            Nt::V272(at, ()) => (272, *at),
            Nt::V273(at) => (273, *at),
            Nt::V274 { at } => (274, *at),
            Nt::V275(at, ()) => (275, *at),
            Nt::V276(at) => (276, *at),
            Nt::V277 { at } => (277, *at),
            Nt::V278(at, ()) => (278, *at),
            Nt::V279(at) => (279, *at),
            Nt::V280 { at } => (280, *at),
            Nt::V281(at, ()) => (281, *at),
            Nt::V282(at) => (282, *at),
            Nt::V283 { at } => (283, *at),
            Nt::V284(at, ()) => (284, *at),
            Nt::V285(at) => (285, *at),
            Nt::V286 { at } => (286, *at),
            Nt::V287(at, ()) => (287, *at),
            Nt::V288(at) => (288, *at),
            Nt::V289 { at } => (289, *at),
            Nt::V290(at, ()) => (290, *at),
            Nt::V291(at) => (291, *at),
            Nt::V292 { at } => (292, *at),
            Nt::V293(at, ()) => (293, *at),
            Nt::V294(at) => (294, *at),
            Nt::V295 { at } => (295, *at),
            Nt::V296(at, ()) => (296, *at),
            Nt::V297(at) => (297, *at),
            Nt::V298 { at } => (298, *at),
            Nt::V299(at, ()) => (299, *at),
            Nt::V300(at) => (300, *at),
            Nt::V301 { at } => (301, *at),
            Nt::V302(at, ()) => (302, *at),
            Nt::V303(at) => (303, *at),
            Nt::V304 { at } => (304, *at),
            Nt::V305(at, ()) => (305, *at),
            Nt::V306(at) => (306, *at),
            Nt::V307 { at } => (307, *at),
            Nt::V308(at, ()) => (308, *at),
            Nt::V309(at) => (309, *at),
            Nt::V310 { at } => (310, *at),
            Nt::V311(at, ()) => (311, *at),
            Nt::V312(at) => (312, *at),
            Nt::V313 { at } => (313, *at),
            Nt::V314(at, ()) => (314, *at),
            Nt::V315(at) => (315, *at),
            Nt::V316 { at } => (316, *at),
            Nt::V317(at, ()) => (317, *at),
            Nt::V318(at) => (318, *at),
            Nt::V319 { at } => (319, *at),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Er(pub usize);
impl std::fmt::Display for Er {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "reducer error {}", self.0)
    }
}
impl std::error::Error for Er {}
pub type P = LR1Parser<Nt, Tk, Er>;
#[derive(Clone, Copy)]
pub enum S {
    N(usize),
    T(usize),
    E,
}
pub struct Grammar {
    pub make: fn() -> P,
    pub rules: &'static [(usize, &'static [S])],
    pub start: usize,
}
#[derive(Debug, PartialEq, Clone)]
pub enum Arg {
    N(usize, usize),
    T(usize, usize),
    E(Vec<(usize, usize)>),
}
#[derive(Debug, PartialEq, Clone)]
pub enum Ev {
    Pull(usize),
    Reduce(usize, Vec<Arg>),
}
#[derive(Default)]
pub struct Rec {
    ev: Vec<Ev>,
    reduces: usize,
    fail: Option<usize>,
}
struct Budget;
thread_local!(static REC: RefCell<Rec> = RefCell::new(Rec::default()););
fn log(e: Ev) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.ev.push(e);
        if r.ev.len() > 30_000 {
            panic_any(Budget)
        }
    })
}
pub fn reduce(rule: usize, lhs: usize, list: &mut [Symbol<&mut Nt, &Tk, &[Tk]>]) -> Result<Nt, Er> {
    let args = list
        .iter()
        .map(|s| match s {
            Symbol::NonTerminal(n) => Arg::N(n.look().0, n.look().1),
            Symbol::Terminal(t) => Arg::T(t.look().0, t.look().1),
            Symbol::Error(e) => Arg::E(e.iter().map(|t| t.look()).collect()),
        })
        .collect();
    log(Ev::Reduce(rule, args));
    let (k, fail) = REC.with(|r| {
        let mut r = r.borrow_mut();
        r.reduces += 1;
        (r.reduces - 1, r.fail)
    });
    if fail == Some(k) {
        return Err(Er(1000 + k));
    }
    Ok(Nt::make(lhs, k))
}
fn build(g: &Grammar) -> P {
    let mut b = Syntax::<Nt, Tk, Er>::builder();
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let l = *l;
        let v: Vec<Symbol<Nt, Tk, ()>> = r
            .iter()
            .map(|s| match s {
                S::N(n) => Symbol::NonTerminal(Nt::make(*n, 0)),
                S::T(t) => Symbol::Terminal(Tk::make(*t, 0)),
                S::E => Symbol::Error(()),
            })
            .collect();
        b = b.rule(Rule::new(Nt::make(l, 0), &v, move |list| reduce(i, l, list)));
    }
    LR1Parser::new(b.build(Nt::make(g.start, 0))).0
}
fn run(p: &P, toks: &[usize], fail: Option<usize>) -> (Vec<Ev>, String) {
    REC.with(|r| *r.borrow_mut() = Rec { ev: vec![], reduces: 0, fail });
    let r = catch_unwind(AssertUnwindSafe(|| {
        toks.iter()
            .enumerate()
            .map(|(i, t)| {
                log(Ev::Pull(i));
                Tk::make(*t, i)
            })
            .parse(p)
    }));
    let ev = REC.with(|r| std::mem::take(&mut r.borrow_mut().ev));
    let res = match r {
        Ok(Ok(n)) => format!("ok {:?}", n.look()),
        Ok(Err(ParseError::RecoveryRuleNotFound)) => "syntax error".to_string(),
        Ok(Err(ParseError::ErrorInReducer(e))) => format!("reducer error {:?}", e),
        Err(b) if b.is::<Budget>() => "endless".to_string(),
        Err(_) => "panic".to_string(),
    };
    (ev, res)
}

#[derive(Debug, Clone, PartialEq)]
pub struct It {
    pub ch: char,
    pub at: usize,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Tok {
    pub rule: usize,
    pub text: String,
    pub items: Vec<usize>,
}
pub enum MakeT {
    Char(fn() -> DFATokenizer<Tok, char>),
    Item(fn() -> DFATokenizer<Tok, It>),
    Pair(fn() -> DFATokenizer<Tok, (char, usize)>),
}
pub struct Lexer {
    pub make: MakeT,
    pub pats: &'static [&'static str],
}
pub fn tok_c(rule: usize, s: &str, v: Vec<char>) -> Tok {
    Tok { rule, text: s.to_string(), items: v.into_iter().map(|c| c as usize).collect() }
}
pub fn tok_i(rule: usize, s: &str, v: Vec<It>) -> Tok {
    Tok { rule, text: s.to_string(), items: v.into_iter().map(|c| c.at).collect() }
}
pub fn tok_p(rule: usize, s: &str, v: Vec<(char, usize)>) -> Tok {
    Tok { rule, text: s.to_string(), items: v.into_iter().map(|c| c.1).collect() }
}
pub fn tok_c_at<const N: usize>(s: &str, v: Vec<char>) -> Tok {
    tok_c(N, s, v)
}
pub fn tok_i_at<const N: usize>(s: &str, v: Vec<It>) -> Tok {
    tok_i(N, s, v)
}
pub fn tok_p_at<const N: usize>(s: &str, v: Vec<(char, usize)>) -> Tok {
    tok_p(N, s, v)
}
macro_rules! built {
    ($pats:expr, $t:ty, $f:path) => {{
        let mut b = DFATokenizer::<Tok, $t>::builder();
        for (i, p) in $pats.iter().enumerate() {
            b = b.pattern(p, move |s, v| $f(i, s, v));
        }
        match b.build() {
            Ok((t, _)) => t,
            Err(_) => panic!("the tokenizer does not build at run time"),
        }
    }};
}

#[derive(Default)]
struct Seen {
    evals: u64,
    distinct: HashSet<u64>,
    stats: BTreeMap<String, u64>,
    samples: Vec<String>,
}
impl Seen {
    fn saw(&mut self, key: &impl Hash) {
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    fn finish(&self, bad: Option<String>) -> ! {
        fn q(s: &str) -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                        let mut b = [0u16; 2];
                        for u in c.encode_utf16(&mut b) {
                            o.push_str(&format!("\\u{:04x}", u));
                        }
                    }
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        let stats: Vec<String> = self.stats.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let samples: Vec<String> = self.samples.iter().map(|s| q(s)).collect();
        let mut d: Vec<&u64> = self.distinct.iter().collect();
        d.sort();
        println!("{{\"evals\":{},\"distinct\":{:?},\"stats\":{{{}}},\"samples\":[{}]{}}}", self.evals, d, stats.join(","), samples.join(","), bad.as_ref().map(|b| format!(",\"violation\":{}", q(b))).unwrap_or_default());
        std::process::exit(if bad.is_some() { 1 } else { 0 })
    }
}
fn silent() {
    std::panic::set_hook(Box::new(|_| {}));
}
fn first_difference(a: &[Ev], b: &[Ev]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("first difference at event {}: generated {:?}, built at run time {:?}", n, a.get(n), b.get(n))
}
pub fn compare_parsers(gs: &[(usize, Grammar)], inputs: &str) -> ! {
    silent();
    let mut seen = Seen::default();
    let mut cur: Option<(usize, P, P, P)> = None;
    for l in inputs.lines() {
        let v: Vec<usize> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let (k, fail, toks) = (v[0], v[1], &v[2..]);
        let g = &gs.iter().find(|g| g.0 == k).unwrap().1;
        if cur.as_ref().map(|c| c.0) != Some(k) {
            let made = catch_unwind(|| ((g.make)(), (g.make)()));
            let Ok((a, a2)) = made else { seen.finish(Some(format!("grammar {}: the generated function panics", k))) };
            cur = Some((k, a, a2, build(g)));
            seen.stat("grammars generated", 1);
        }
        let (_, a, a2, b) = cur.as_ref().unwrap();
        let base = run(b, toks, None);
        let total = base.0.iter().filter(|e| matches!(e, Ev::Reduce(..))).count();
        let mut faults = vec![None];
        if fail > 0 && total > 0 {
            faults.push(Some((fail - 1) % total));
        }
        for f in faults {
            let want = run(b, toks, f);
            let got = run(a, toks, f);
            let again = run(a2, toks, f);
            seen.saw(&(k, toks.to_vec(), f));
            seen.stat("events compared", want.0.len() as u64);
            seen.stat(&format!("outcome {}", want.1.split(' ').take(2).filter(|w| !w.starts_with('(')).collect::<Vec<_>>().join(" ").split('(').next().unwrap().trim()), 1);
            if want.0.iter().any(|e| matches!(e, Ev::Reduce(_, a) if a.iter().any(|x| matches!(x, Arg::E(_))))) {
                seen.stat("runs with a recovered error", 1);
            }
            if got != want || again != want {
                let m = format!("grammar {} on {:?} with failing reducer call {:?}: generated {}, built at run time {}; {}", k, toks, f, got.1, want.1, first_difference(&got.0, &want.0));
                seen.finish(Some(m));
            }
            if seen.evals % 401 == 7 && seen.samples.len() < 12 {
                seen.samples.push(format!("grammar {} on {:?}: {} ({} events)", k, toks, want.1, want.0.len()));
            }
        }
    }
    seen.finish(None)
}
pub fn compare_lexers(ls: &[(usize, Lexer)], inputs: &str) -> ! {
    silent();
    let mut seen = Seen::default();
    // one line per input: lexer number, then code points
    let mut by: BTreeMap<usize, Vec<Vec<char>>> = BTreeMap::new();
    for l in inputs.lines() {
        let v: Vec<u32> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        by.entry(v[0] as usize).or_default().push(v[1..].iter().map(|c| char::from_u32(*c).unwrap()).collect());
    }
    for (k, ins) in by {
        let l = &ls.iter().find(|l| l.0 == k).unwrap().1;
        seen.stat("tokenizers generated", 1);
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(Vec<(Vec<Tok>, Vec<Tok>)>, &'static str), String> {
            let cap = |i: &Vec<char>| i.len() + 2;
            Ok(match &l.make {
                MakeT::Char(m) => {
                    let (a, b) = (m(), built!(l.pats, char, tok_c));
                    (ins.iter().map(|i| (i.iter().copied().tokenize(&a).take(cap(i)).collect(), i.iter().copied().tokenize(&b).take(cap(i)).collect())).collect(), "char")
                }
                MakeT::Item(m) => {
                    let (a, b) = (m(), built!(l.pats, It, tok_i));
                    let src = |i: &Vec<char>| i.iter().enumerate().map(|(at, ch)| It { ch: *ch, at }).collect::<Vec<_>>().into_iter();
                    (ins.iter().map(|i| (src(i).tokenize_with(&a, |c: &It| c.ch).take(cap(i)).collect(), src(i).tokenize_with(&b, |c: &It| c.ch).take(cap(i)).collect())).collect(), "struct")
                }
                MakeT::Pair(m) => {
                    let (a, b) = (m(), built!(l.pats, (char, usize), tok_p));
                    let src = |i: &Vec<char>| i.iter().enumerate().map(|(at, ch)| (*ch, at)).collect::<Vec<_>>().into_iter();
                    (ins.iter().map(|i| (src(i).tokenize_with(&a, |c: &(char, usize)| c.0).take(cap(i)).collect(), src(i).tokenize_with(&b, |c: &(char, usize)| c.0).take(cap(i)).collect())).collect(), "tuple")
                }
            })
        }));
        let (pairs, kind) = match r {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => seen.finish(Some(e)),
            Err(_) => seen.finish(Some(format!("tokenizer {} {:?}: panic", k, l.pats))),
        };
        for (i, (got, want)) in ins.iter().zip(pairs) {
            seen.saw(&(k, i));
            seen.stat("tokens compared", want.len() as u64);
            seen.stat(&format!("inputs with item type {}", kind), 1);
            if got != want {
                let n = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                let m = format!("tokenizer {} {:?} on {:?}: token {} generated {:?}, built at run time {:?}", k, l.pats, i.iter().collect::<String>(), n, got.get(n), want.get(n));
                seen.finish(Some(m));
            }
            if seen.evals % 97 == 5 && seen.samples.len() < 12 {
                seen.samples.push(format!("{:?} on {:?}: {} tokens", l.pats, i.iter().collect::<String>(), want.len()));
            }
        }
    }
    seen.finish(None)
}
