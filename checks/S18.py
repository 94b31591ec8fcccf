LIBS = ['std']
def setup(ck):
    h = ck.harness('vas', 'lib/vas.myr')
    N = ['B; C; i8; i16; i; i32; i64; b; u8; u16; u; u32; u64; f32; f64', 'f64; f32; u64; u32; u; u16; u8; b; i64; i32; i; i16; i8; C; B', 'b; T(b,i64); b; S(x:i16,y:b); i64', 'b; A3(i16); b; A2(i64); f32', 'b; L(i16); i16; L(b); b; L(S(a:b,b:i32))', 'Nn0(i32); b; Nn2(Nn1(S(a:i64))); b; P(b); Nn3(b)', 'b; Nn4(U(A4:b,B4:i64)); b; Nn5(U(A5:b,B5:i64)); b', 'Nn6(U(A6:0,B6:b)); Nn7(U(A7:0,B7:b)); b; Nn8(U(A8:0,B8:0)); b; Nn9(U(A9:i16,B9:T(b,i32)))', 'Nn10(U(A10:S(x:b,y:i64),B10:f32,C10:C)); Nn11(U(A11:S(x:b,y:i64),B11:f32,C11:C)); Nn12(U(A', 'S(averylongmembernametobeencodedinmorethanonebyte0:S(innermembername0:i64,innermembername1', 'T(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,', 'A200(b); b', 'S(a:Nn13(U(A13:i64,B13:b)),b:b); b', 'T(A3(Nn14(B)),P(u64),S(a:C),A2(S(a:u8,b:C,c:u16,d:i16))); u32; S(a:T(L(i16),u64),b:i8,c:Nn', 'T(A2(Nn16(U(A16:u,B16:C,C16:f32,D16:u32))),b); P(u32)', 'i; u32', 'L(u8); L(A2(Nn17(U(A17:u32,B17:i16)))); S(a:A3(A3(i)),b:P(C),c:Nn19(U(A19:A2(B),B19:i16,C1', 'f64; u64', 'A1(u32); Nn21(U(A21:L(i8),B21:B)); T(P(f64),Nn22(U(A22:0,B22:P(u32))))', 'T(P(i64),C,L(Nn23(i8))); P(f32); A1(b)', 'Nn26(Nn25(Nn24(i32))); u64; A3(Nn27(U(A27:T(u8,u32,u),B27:P(i),C27:T(u,i8,u16),D27:0)))', 'T(T(T(u,u,u64,i32),A2(u),A3(f32)),L(A1(f32)),P(i32)); A3(u8); i16; A2(T(u32,L(i16),u16,Nn2', 'Nn29(U(A29:i16,B29:u,C29:P(i16))); f64', 'i32; b', 'Nn30(i64); P(i32)', 'Nn31(U(A31:S(a:i32,b:L(i16),c:T(f32,C,u32)),B31:0)); u8; Nn34(U(A34:Nn33(Nn32(i32)),B34:0,', 'Nn35(A2(i8)); Nn38(U(A38:S(a:Nn36(U(A36:f64,B36:i64)),b:A3(f64)),B38:i32,C38:Nn37(U(A37:S(', 'P(i16); T(f32,L(b)); Nn40(Nn39(T(f64,b))); i16', 'T(T(P(u16),P(u8),Nn41(U(A41:0,B41:i8,C41:u8,D41:u16))),Nn42(b)); A2(Nn43(U(A43:T(b,u,f64,C', 'Nn44(U(A44:P(f32),B44:0,C44:L(S(a:b,b:f32,c:u64)),D44:u32)); Nn45(U(A45:P(f64),B45:b,C45:P', 'Nn46(C); S(a:u64,b:u,c:i32); L(i64); P(B)', 'i16; Nn47(U(A47:0,B47:i,C47:P(i8),D47:i64))', 'Nn48(U(A48:u,B48:i)); Nn51(U(A51:L(Nn49(U(A49:C,B49:u16))),B51:A1(u32),C51:Nn50(U(A50:T(u8', 'Nn54(U(A54:u8,B54:S(a:P(b),b:A1(u64),c:Nn52(B),d:Nn53(u32)),C54:i64,D54:S(a:f64))); S(a:Nn', 'Nn56(U(A56:L(C),B56:i16)); b; P(u); A1(L(P(i)))', 'L(A2(P(C))); S(a:C,b:A2(P(i8))); Nn57(T(T(u64,i),S(a:b))); i32', 'A1(u); P(b); C']
    for i, n in enumerate(N): ck.case(h, i + 1, 'variadic arguments: ' + n, 'every value of every member', expect=[2, 3, 4, 9, 10], time=60)
