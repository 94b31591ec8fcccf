/* generated by tools/gen_chr.py */
#include "ref.h"
static const u64 T0[]={0x0ull,0x18000001000001ull,0x18000002000002ull,0x18000003000003ull,0x18000004000004ull,0x18000005000005ull,0x18000006000006ull,0x18000007000007ull,0x18000008000008ull,0x18000009000009ull,0x1800000a00000aull,0x1800000b00000bull,0x1800000c00000cull,0x1800000d00000dull,0x1800000e00000eull,0x1800000f00000full,0x18000010000010ull,0x18000011000011ull,0x18000012000012ull,0x18000013000013ull,0x18000014000014ull,0x18000015000015ull,0x18000016000016ull,0x18000017000017ull,0x18000018000018ull,0x18000019000019ull,0x1800001a00001aull,0x1800001b00001bull,0x1800001c00001cull,0x1800001d00001dull,0x1800001e00001eull,0x1800001f00001full,0x8000020000020ull,0x8000021000021ull,0x8000022000022ull,0x8000023000023ull,0x8000024000024ull,0x8000025000025ull,0x8000026000026ull,0x8000027000027ull,0x8000028000028ull,0x8000029000029ull,0x800002a00002aull,0x800002b00002bull,0x800002c00002cull,0x800002d00002dull,0x800002e00002eull,0x800002f00002full,0x8000030000030ull,0x8000031000031ull,0x8000032000032ull,0x8000033000033ull,0x8000034000034ull,0x8000035000035ull,0x8000036000036ull,0x8000037000037ull,0x8000038000038ull,0x8000039000039ull,0x800003a00003aull,0x800003b00003bull,0x800003c00003cull,0x800003d00003dull,0x800003e00003eull,0x800003f00003full,0x8000040000040ull,0xb000041000061ull,0xb000042000062ull,0xb000043000063ull,0xb000044000064ull,0xb000045000065ull,0xb000046000066ull,0xb000047000067ull,0xb000048000068ull,0xb000049000069ull,0xb00004a00006aull,0xb00004b00006bull,0xb00004c00006cull,0xb00004d00006dull,0xb00004e00006eull,0xb00004f00006full,0xb000050000070ull,0xb000051000071ull,0xb000052000072ull,0xb000053000073ull,0xb000054000074ull,0xb000055000075ull,0xb000056000076ull,0xb000057000077ull,0xb000058000078ull,0xb000059000079ull,0xb00005a00007aull,0x800005b00005bull,0x800005c00005cull,0x800005d00005dull,0x800005e00005eull,0x800005f00005full,0x8000060000060ull,0xd000041000061ull,0xd000042000062ull,0xd000043000063ull,0xd000044000064ull,0xd000045000065ull,0xd000046000066ull,0xd000047000067ull,0xd000048000068ull,0xd000049000069ull,0xd00004a00006aull,0xd00004b00006bull,0xd00004c00006cull,0xd00004d00006dull,0xd00004e00006eull,0xd00004f00006full,0xd000050000070ull,0xd000051000071ull,0xd000052000072ull,0xd000053000073ull,0xd000054000074ull,0xd000055000075ull,0xd000056000076ull,0xd000057000077ull,0xd000058000078ull,0xd000059000079ull,0xd00005a00007aull,0x800007b00007bull,0x800007c00007cull,0x800007d00007dull,0x800007e00007eull,0x1800007f00007full};
static const u64 T1[]={0x18000080000080ull,0x18000081000081ull,0x18000082000082ull,0x18000083000083ull,0x18000084000084ull,0x18000085000085ull,0x18000086000086ull,0x18000087000087ull,0x18000088000088ull,0x18000089000089ull,0x1800008a00008aull,0x1800008b00008bull,0x1800008c00008cull,0x1800008d00008dull,0x1800008e00008eull,0x1800008f00008full,0x18000090000090ull,0x18000091000091ull,0x18000092000092ull,0x18000093000093ull,0x18000094000094ull,0x18000095000095ull,0x18000096000096ull,0x18000097000097ull,0x18000098000098ull,0x18000099000099ull,0x1800009a00009aull,0x1800009b00009bull,0x1800009c00009cull,0x1800009d00009dull,0x1800009e00009eull,0x1800009f00009full,0x80000a00000a0ull,0x80000a10000a1ull,0x80000a20000a2ull,0x80000a30000a3ull,0x80000a40000a4ull,0x80000a50000a5ull,0x80000a60000a6ull,0x80000a70000a7ull,0x80000a80000a8ull,0x80000a90000a9ull,0x90000aa0000aaull,0x80000ab0000abull,0x80000ac0000acull,0xad0000adull,0x80000ae0000aeull,0x80000af0000afull,0x80000b00000b0ull,0x80000b10000b1ull,0x80000b20000b2ull,0x80000b30000b3ull,0x80000b40000b4ull,0x8000039c0000b5ull,0x80000b60000b6ull,0x80000b70000b7ull,0x80000b80000b8ull,0x80000b90000b9ull,0x90000ba0000baull,0x80000bb0000bbull,0x80000bc0000bcull,0x80000bd0000bdull,0x80000be0000beull,0x80000bf0000bfull,0xb0000c00000e0ull,0xb0000c10000e1ull,0xb0000c20000e2ull,0xb0000c30000e3ull,0xb0000c40000e4ull,0xb0000c50000e5ull,0xb0000c60000e6ull,0xb0000c70000e7ull,0xb0000c80000e8ull,0xb0000c90000e9ull,0xb0000ca0000eaull,0xb0000cb0000ebull,0xb0000cc0000ecull,0xb0000cd0000edull,0xb0000ce0000eeull,0xb0000cf0000efull,0xb0000d00000f0ull,0xb0000d10000f1ull,0xb0000d20000f2ull,0xb0000d30000f3ull,0xb0000d40000f4ull,0xb0000d50000f5ull,0xb0000d60000f6ull,0x80000d70000d7ull,0xb0000d80000f8ull,0xb0000d90000f9ull,0xb0000da0000faull,0xb0000db0000fbull,0xb0000dc0000fcull,0xb0000dd0000fdull,0xb0000de0000feull,0x90000df0000dfull,0xd0000c00000e0ull,0xd0000c10000e1ull,0xd0000c20000e2ull,0xd0000c30000e3ull,0xd0000c40000e4ull,0xd0000c50000e5ull,0xd0000c60000e6ull,0xd0000c70000e7ull,0xd0000c80000e8ull,0xd0000c90000e9ull,0xd0000ca0000eaull,0xd0000cb0000ebull,0xd0000cc0000ecull,0xd0000cd0000edull,0xd0000ce0000eeull,0xd0000cf0000efull,0xd0000d00000f0ull,0xd0000d10000f1ull,0xd0000d20000f2ull,0xd0000d30000f3ull,0xd0000d40000f4ull,0xd0000d50000f5ull,0xd0000d60000f6ull,0x80000f70000f7ull,0xd0000d80000f8ull,0xd0000d90000f9ull,0xd0000da0000faull,0xd0000db0000fbull,0xd0000dc0000fcull,0xd0000dd0000fdull,0xd0000de0000feull,0xd0001780000ffull};
static const u64 T2[]={0xb000100000101ull,0xd000100000101ull,0xb000102000103ull,0xd000102000103ull,0xb000104000105ull,0xd000104000105ull,0xb000106000107ull,0xd000106000107ull,0xb000108000109ull,0xd000108000109ull,0xb00010a00010bull,0xd00010a00010bull,0xb00010c00010dull,0xd00010c00010dull,0xb00010e00010full,0xd00010e00010full,0xb000110000111ull,0xd000110000111ull,0xb000112000113ull,0xd000112000113ull,0xb000114000115ull,0xd000114000115ull,0xb000116000117ull,0xd000116000117ull,0xb000118000119ull,0xd000118000119ull,0xb00011a00011bull,0xd00011a00011bull,0xb00011c00011dull,0xd00011c00011dull,0xb00011e00011full,0xd00011e00011full,0xb000120000121ull,0xd000120000121ull,0xb000122000123ull,0xd000122000123ull,0xb000124000125ull,0xd000124000125ull,0xb000126000127ull,0xd000126000127ull,0xb000128000129ull,0xd000128000129ull,0xb00012a00012bull,0xd00012a00012bull,0xb00012c00012dull,0xd00012c00012dull,0xb00012e00012full,0xd00012e00012full,0x80000130000130ull,0xd000049000131ull,0xb000132000133ull,0xd000132000133ull,0xb000134000135ull,0xd000134000135ull,0xb000136000137ull,0xd000136000137ull,0x9000138000138ull,0xb00013900013aull,0xd00013900013aull,0xb00013b00013cull,0xd00013b00013cull,0xb00013d00013eull,0xd00013d00013eull,0xb00013f000140ull,0xd00013f000140ull,0xb000141000142ull,0xd000141000142ull,0xb000143000144ull,0xd000143000144ull,0xb000145000146ull,0xd000145000146ull,0xb000147000148ull,0xd000147000148ull,0x9000149000149ull,0xb00014a00014bull,0xd00014a00014bull,0xb00014c00014dull,0xd00014c00014dull,0xb00014e00014full,0xd00014e00014full,0xb000150000151ull,0xd000150000151ull,0xb000152000153ull,0xd000152000153ull,0xb000154000155ull,0xd000154000155ull,0xb000156000157ull,0xd000156000157ull,0xb000158000159ull,0xd000158000159ull,0xb00015a00015bull,0xd00015a00015bull,0xb00015c00015dull,0xd00015c00015dull,0xb00015e00015full,0xd00015e00015full,0xb000160000161ull,0xd000160000161ull,0xb000162000163ull,0xd000162000163ull,0xb000164000165ull,0xd000164000165ull,0xb000166000167ull,0xd000166000167ull,0xb000168000169ull,0xd000168000169ull,0xb00016a00016bull,0xd00016a00016bull,0xb00016c00016dull,0xd00016c00016dull,0xb00016e00016full,0xd00016e00016full,0xb000170000171ull,0xd000170000171ull,0xb000172000173ull,0xd000172000173ull,0xb000174000175ull,0xd000174000175ull,0xb000176000177ull,0xd000176000177ull,0xb0001780000ffull,0xb00017900017aull,0xd00017900017aull,0xb00017b00017cull,0xd00017b00017cull,0xb00017d00017eull,0xd00017d00017eull,0xd00005300017full};
static const u64 T3[]={0xb0003860003acull,0x8000387000387ull,0xb0003880003adull,0xb0003890003aeull,0xb00038a0003afull,0x8000038b00038bull,0xb00038c0003ccull,0x8000038d00038dull,0xb00038e0003cdull,0xb00038f0003ceull,0x9000390000390ull,0xb0003910003b1ull,0xb0003920003b2ull,0xb0003930003b3ull,0xb0003940003b4ull,0xb0003950003b5ull,0xb0003960003b6ull,0xb0003970003b7ull,0xb0003980003b8ull,0xb0003990003b9ull,0xb00039a0003baull,0xb00039b0003bbull,0xb00039c0003bcull,0xb00039d0003bdull,0xb00039e0003beull,0xb00039f0003bfull,0xb0003a00003c0ull,0xb0003a10003c1ull,0x800003a20003a2ull,0xb0003a30003c3ull,0xb0003a40003c4ull,0xb0003a50003c5ull,0xb0003a60003c6ull,0xb0003a70003c7ull,0xb0003a80003c8ull,0xb0003a90003c9ull,0xb0003aa0003caull,0xb0003ab0003cbull,0xd0003860003acull,0xd0003880003adull,0xd0003890003aeull,0xd00038a0003afull,0x90003b00003b0ull,0xd0003910003b1ull,0xd0003920003b2ull,0xd0003930003b3ull,0xd0003940003b4ull,0xd0003950003b5ull,0xd0003960003b6ull,0xd0003970003b7ull,0xd0003980003b8ull,0xd0003990003b9ull,0xd00039a0003baull,0xd00039b0003bbull,0xd00039c0003bcull,0xd00039d0003bdull,0xd00039e0003beull,0xd00039f0003bfull,0xd0003a00003c0ull,0xd0003a10003c1ull,0x800003a30003c2ull,0xd0003a30003c3ull,0xd0003a40003c4ull,0xd0003a50003c5ull,0xd0003a60003c6ull,0xd0003a70003c7ull,0xd0003a80003c8ull,0xd0003a90003c9ull,0xd0003aa0003caull,0xd0003ab0003cbull,0xd00038c0003ccull,0xd00038e0003cdull,0xd00038f0003ceull};
static const u64 T4[]={0xb000401000451ull,0xb000402000452ull,0xb000403000453ull,0xb000404000454ull,0xb000405000455ull,0xb000406000456ull,0xb000407000457ull,0xb000408000458ull,0xb000409000459ull,0xb00040a00045aull,0xb00040b00045bull,0xb00040c00045cull,0x8000040d00045dull,0xb00040e00045eull,0xb00040f00045full,0xb000410000430ull,0xb000411000431ull,0xb000412000432ull,0xb000413000433ull,0xb000414000434ull,0xb000415000435ull,0xb000416000436ull,0xb000417000437ull,0xb000418000438ull,0xb000419000439ull,0xb00041a00043aull,0xb00041b00043bull,0xb00041c00043cull,0xb00041d00043dull,0xb00041e00043eull,0xb00041f00043full,0xb000420000440ull,0xb000421000441ull,0xb000422000442ull,0xb000423000443ull,0xb000424000444ull,0xb000425000445ull,0xb000426000446ull,0xb000427000447ull,0xb000428000448ull,0xb000429000449ull,0xb00042a00044aull,0xb00042b00044bull,0xb00042c00044cull,0xb00042d00044dull,0xb00042e00044eull,0xb00042f00044full,0xd000410000430ull,0xd000411000431ull,0xd000412000432ull,0xd000413000433ull,0xd000414000434ull,0xd000415000435ull,0xd000416000436ull,0xd000417000437ull,0xd000418000438ull,0xd000419000439ull,0xd00041a00043aull,0xd00041b00043bull,0xd00041c00043cull,0xd00041d00043dull,0xd00041e00043eull,0xd00041f00043full,0xd000420000440ull,0xd000421000441ull,0xd000422000442ull,0xd000423000443ull,0xd000424000444ull,0xd000425000445ull,0xd000426000446ull,0xd000427000447ull,0xd000428000448ull,0xd000429000449ull,0xd00042a00044aull,0xd00042b00044bull,0xd00042c00044cull,0xd00042d00044dull,0xd00042e00044eull,0xd00042f00044full,0x80000400000450ull,0xd000401000451ull,0xd000402000452ull,0xd000403000453ull,0xd000404000454ull,0xd000405000455ull,0xd000406000456ull,0xd000407000457ull,0xd000408000458ull,0xd000409000459ull,0xd00040a00045aull,0xd00040b00045bull,0xd00040c00045cull,0x8000040d00045dull,0xd00040e00045eull,0xd00040f00045full,0xb000460000461ull,0xd000460000461ull,0xb000462000463ull,0xd000462000463ull,0xb000464000465ull,0xd000464000465ull,0xb000466000467ull,0xd000466000467ull,0xb000468000469ull,0xd000468000469ull,0xb00046a00046bull,0xd00046a00046bull,0xb00046c00046dull,0xd00046c00046dull,0xb00046e00046full,0xd00046e00046full,0xb000470000471ull,0xd000470000471ull,0xb000472000473ull,0xd000472000473ull,0xb000474000475ull,0xd000474000475ull,0xb000476000477ull,0xd000476000477ull,0xb000478000479ull,0xd000478000479ull,0xb00047a00047bull,0xd00047a00047bull,0xb00047c00047dull,0xd00047c00047dull,0xb00047e00047full,0xd00047e00047full,0xb000480000481ull,0xd000480000481ull};
static const u64 T5[]={0xb000531000561ull,0xb000532000562ull,0xb000533000563ull,0xb000534000564ull,0xb000535000565ull,0xb000536000566ull,0xb000537000567ull,0xb000538000568ull,0xb000539000569ull,0xb00053a00056aull,0xb00053b00056bull,0xb00053c00056cull,0xb00053d00056dull,0xb00053e00056eull,0xb00053f00056full,0xb000540000570ull,0xb000541000571ull,0xb000542000572ull,0xb000543000573ull,0xb000544000574ull,0xb000545000575ull,0xb000546000576ull,0xb000547000577ull,0xb000548000578ull,0xb000549000579ull,0xb00054a00057aull,0xb00054b00057bull,0xb00054c00057cull,0xb00054d00057dull,0xb00054e00057eull,0xb00054f00057full,0xb000550000580ull,0xb000551000581ull,0xb000552000582ull,0xb000553000583ull,0xb000554000584ull,0xb000555000585ull,0xb000556000586ull,0x80000557000557ull,0x80000558000558ull,0x80000559000559ull,0x800055a00055aull,0x800055b00055bull,0x800055c00055cull,0x800055d00055dull,0x800055e00055eull,0x800055f00055full,0x80000560000560ull,0xd000531000561ull,0xd000532000562ull,0xd000533000563ull,0xd000534000564ull,0xd000535000565ull,0xd000536000566ull,0xd000537000567ull,0xd000538000568ull,0xd000539000569ull,0xd00053a00056aull,0xd00053b00056bull,0xd00053c00056cull,0xd00053d00056dull,0xd00053e00056eull,0xd00053f00056full,0xd000540000570ull,0xd000541000571ull,0xd000542000572ull,0xd000543000573ull,0xd000544000574ull,0xd000545000575ull,0xd000546000576ull,0xd000547000577ull,0xd000548000578ull,0xd000549000579ull,0xd00054a00057aull,0xd00054b00057bull,0xd00054c00057cull,0xd00054d00057dull,0xd00054e00057eull,0xd00054f00057full,0xd000550000580ull,0xd000551000581ull,0xd000552000582ull,0xd000553000583ull,0xd000554000584ull,0xd000555000585ull,0xd000556000586ull};
static const u64 T6[]={0x90005d00005d0ull,0x90005d10005d1ull,0x90005d20005d2ull,0x90005d30005d3ull,0x90005d40005d4ull,0x90005d50005d5ull,0x90005d60005d6ull,0x90005d70005d7ull,0x90005d80005d8ull,0x90005d90005d9ull,0x90005da0005daull,0x90005db0005dbull,0x90005dc0005dcull,0x90005dd0005ddull,0x90005de0005deull,0x90005df0005dfull,0x90005e00005e0ull,0x90005e10005e1ull,0x90005e20005e2ull,0x90005e30005e3ull,0x90005e40005e4ull,0x90005e50005e5ull,0x90005e60005e6ull,0x90005e70005e7ull,0x90005e80005e8ull,0x90005e90005e9ull,0x90005ea0005eaull};
static const u64 T7[]={0xb001e00001e01ull,0xd001e00001e01ull,0xb001e02001e03ull,0xd001e02001e03ull,0xb001e04001e05ull,0xd001e04001e05ull,0xb001e06001e07ull,0xd001e06001e07ull,0xb001e08001e09ull,0xd001e08001e09ull,0xb001e0a001e0bull,0xd001e0a001e0bull,0xb001e0c001e0dull,0xd001e0c001e0dull,0xb001e0e001e0full,0xd001e0e001e0full,0xb001e10001e11ull,0xd001e10001e11ull,0xb001e12001e13ull,0xd001e12001e13ull,0xb001e14001e15ull,0xd001e14001e15ull,0xb001e16001e17ull,0xd001e16001e17ull,0xb001e18001e19ull,0xd001e18001e19ull,0xb001e1a001e1bull,0xd001e1a001e1bull,0xb001e1c001e1dull,0xd001e1c001e1dull,0xb001e1e001e1full,0xd001e1e001e1full,0xb001e20001e21ull,0xd001e20001e21ull,0xb001e22001e23ull,0xd001e22001e23ull,0xb001e24001e25ull,0xd001e24001e25ull,0xb001e26001e27ull,0xd001e26001e27ull,0xb001e28001e29ull,0xd001e28001e29ull,0xb001e2a001e2bull,0xd001e2a001e2bull,0xb001e2c001e2dull,0xd001e2c001e2dull,0xb001e2e001e2full,0xd001e2e001e2full,0xb001e30001e31ull,0xd001e30001e31ull,0xb001e32001e33ull,0xd001e32001e33ull,0xb001e34001e35ull,0xd001e34001e35ull,0xb001e36001e37ull,0xd001e36001e37ull,0xb001e38001e39ull,0xd001e38001e39ull,0xb001e3a001e3bull,0xd001e3a001e3bull,0xb001e3c001e3dull,0xd001e3c001e3dull,0xb001e3e001e3full,0xd001e3e001e3full,0xb001e40001e41ull,0xd001e40001e41ull,0xb001e42001e43ull,0xd001e42001e43ull,0xb001e44001e45ull,0xd001e44001e45ull,0xb001e46001e47ull,0xd001e46001e47ull,0xb001e48001e49ull,0xd001e48001e49ull,0xb001e4a001e4bull,0xd001e4a001e4bull,0xb001e4c001e4dull,0xd001e4c001e4dull,0xb001e4e001e4full,0xd001e4e001e4full,0xb001e50001e51ull,0xd001e50001e51ull,0xb001e52001e53ull,0xd001e52001e53ull,0xb001e54001e55ull,0xd001e54001e55ull,0xb001e56001e57ull,0xd001e56001e57ull,0xb001e58001e59ull,0xd001e58001e59ull,0xb001e5a001e5bull,0xd001e5a001e5bull,0xb001e5c001e5dull,0xd001e5c001e5dull,0xb001e5e001e5full,0xd001e5e001e5full,0xb001e60001e61ull,0xd001e60001e61ull,0xb001e62001e63ull,0xd001e62001e63ull,0xb001e64001e65ull,0xd001e64001e65ull,0xb001e66001e67ull,0xd001e66001e67ull,0xb001e68001e69ull,0xd001e68001e69ull,0xb001e6a001e6bull,0xd001e6a001e6bull,0xb001e6c001e6dull,0xd001e6c001e6dull,0xb001e6e001e6full,0xd001e6e001e6full,0xb001e70001e71ull,0xd001e70001e71ull,0xb001e72001e73ull,0xd001e72001e73ull,0xb001e74001e75ull,0xd001e74001e75ull,0xb001e76001e77ull,0xd001e76001e77ull,0xb001e78001e79ull,0xd001e78001e79ull,0xb001e7a001e7bull,0xd001e7a001e7bull,0xb001e7c001e7dull,0xd001e7c001e7dull,0xb001e7e001e7full,0xd001e7e001e7full,0xb001e80001e81ull,0xd001e80001e81ull,0xb001e82001e83ull,0xd001e82001e83ull,0xb001e84001e85ull,0xd001e84001e85ull,0xb001e86001e87ull,0xd001e86001e87ull,0xb001e88001e89ull,0xd001e88001e89ull,0xb001e8a001e8bull,0xd001e8a001e8bull,0xb001e8c001e8dull,0xd001e8c001e8dull,0xb001e8e001e8full,0xd001e8e001e8full,0xb001e90001e91ull,0xd001e90001e91ull,0xb001e92001e93ull,0xd001e92001e93ull,0xb001e94001e95ull,0xd001e94001e95ull,0x9001e96001e96ull,0x9001e97001e97ull,0x9001e98001e98ull,0x9001e99001e99ull,0x9001e9a001e9aull};
static const u64 T8[]={0xb001ea0001ea1ull,0xd001ea0001ea1ull,0xb001ea2001ea3ull,0xd001ea2001ea3ull,0xb001ea4001ea5ull,0xd001ea4001ea5ull,0xb001ea6001ea7ull,0xd001ea6001ea7ull,0xb001ea8001ea9ull,0xd001ea8001ea9ull,0xb001eaa001eabull,0xd001eaa001eabull,0xb001eac001eadull,0xd001eac001eadull,0xb001eae001eafull,0xd001eae001eafull,0xb001eb0001eb1ull,0xd001eb0001eb1ull,0xb001eb2001eb3ull,0xd001eb2001eb3ull,0xb001eb4001eb5ull,0xd001eb4001eb5ull,0xb001eb6001eb7ull,0xd001eb6001eb7ull,0xb001eb8001eb9ull,0xd001eb8001eb9ull,0xb001eba001ebbull,0xd001eba001ebbull,0xb001ebc001ebdull,0xd001ebc001ebdull,0xb001ebe001ebfull,0xd001ebe001ebfull,0xb001ec0001ec1ull,0xd001ec0001ec1ull,0xb001ec2001ec3ull,0xd001ec2001ec3ull,0xb001ec4001ec5ull,0xd001ec4001ec5ull,0xb001ec6001ec7ull,0xd001ec6001ec7ull,0xb001ec8001ec9ull,0xd001ec8001ec9ull,0xb001eca001ecbull,0xd001eca001ecbull,0xb001ecc001ecdull,0xd001ecc001ecdull,0xb001ece001ecfull,0xd001ece001ecfull,0xb001ed0001ed1ull,0xd001ed0001ed1ull,0xb001ed2001ed3ull,0xd001ed2001ed3ull,0xb001ed4001ed5ull,0xd001ed4001ed5ull,0xb001ed6001ed7ull,0xd001ed6001ed7ull,0xb001ed8001ed9ull,0xd001ed8001ed9ull,0xb001eda001edbull,0xd001eda001edbull,0xb001edc001eddull,0xd001edc001eddull,0xb001ede001edfull,0xd001ede001edfull,0xb001ee0001ee1ull,0xd001ee0001ee1ull,0xb001ee2001ee3ull,0xd001ee2001ee3ull,0xb001ee4001ee5ull,0xd001ee4001ee5ull,0xb001ee6001ee7ull,0xd001ee6001ee7ull,0xb001ee8001ee9ull,0xd001ee8001ee9ull,0xb001eea001eebull,0xd001eea001eebull,0xb001eec001eedull,0xd001eec001eedull,0xb001eee001eefull,0xd001eee001eefull,0xb001ef0001ef1ull,0xd001ef0001ef1ull,0xb001ef2001ef3ull,0xd001ef2001ef3ull,0xb001ef4001ef5ull,0xd001ef4001ef5ull,0xb001ef6001ef7ull,0xd001ef6001ef7ull,0xb001ef8001ef9ull,0xd001ef8001ef9ull};
static const u64 T9[]={0x11003041003041ull,0x11003042003042ull,0x11003043003043ull,0x11003044003044ull,0x11003045003045ull,0x11003046003046ull,0x11003047003047ull,0x11003048003048ull,0x11003049003049ull,0x1100304a00304aull,0x1100304b00304bull,0x1100304c00304cull,0x1100304d00304dull,0x1100304e00304eull,0x1100304f00304full,0x11003050003050ull,0x11003051003051ull,0x11003052003052ull,0x11003053003053ull,0x11003054003054ull,0x11003055003055ull,0x11003056003056ull,0x11003057003057ull,0x11003058003058ull,0x11003059003059ull,0x1100305a00305aull,0x1100305b00305bull,0x1100305c00305cull,0x1100305d00305dull,0x1100305e00305eull,0x1100305f00305full,0x11003060003060ull,0x11003061003061ull,0x11003062003062ull,0x11003063003063ull,0x11003064003064ull,0x11003065003065ull,0x11003066003066ull,0x11003067003067ull,0x11003068003068ull,0x11003069003069ull,0x1100306a00306aull,0x1100306b00306bull,0x1100306c00306cull,0x1100306d00306dull,0x1100306e00306eull,0x1100306f00306full,0x11003070003070ull,0x11003071003071ull,0x11003072003072ull,0x11003073003073ull,0x11003074003074ull,0x11003075003075ull,0x11003076003076ull,0x11003077003077ull,0x11003078003078ull,0x11003079003079ull,0x1100307a00307aull,0x1100307b00307bull,0x1100307c00307cull,0x1100307d00307dull,0x1100307e00307eull,0x1100307f00307full,0x11003080003080ull,0x11003081003081ull,0x11003082003082ull,0x11003083003083ull,0x11003084003084ull,0x11003085003085ull,0x11003086003086ull,0x11003087003087ull,0x11003088003088ull,0x11003089003089ull,0x1100308a00308aull,0x1100308b00308bull,0x1100308c00308cull,0x1100308d00308dull,0x1100308e00308eull,0x1100308f00308full,0x11003090003090ull,0x11003091003091ull,0x11003092003092ull,0x11003093003093ull,0x11003094003094ull,0x80003095003095ull,0x80003096003096ull,0x80003097003097ull,0x80003098003098ull,0x80003099003099ull,0x8000309a00309aull,0x8000309b00309bull,0x8000309c00309cull,0x8000309d00309dull,0x8000309e00309eull,0x8000309f00309full,0x800030a00030a0ull,0x110030a10030a1ull,0x110030a20030a2ull,0x110030a30030a3ull,0x110030a40030a4ull,0x110030a50030a5ull,0x110030a60030a6ull,0x110030a70030a7ull,0x110030a80030a8ull,0x110030a90030a9ull,0x110030aa0030aaull,0x110030ab0030abull,0x110030ac0030acull,0x110030ad0030adull,0x110030ae0030aeull,0x110030af0030afull,0x110030b00030b0ull,0x110030b10030b1ull,0x110030b20030b2ull,0x110030b30030b3ull,0x110030b40030b4ull,0x110030b50030b5ull,0x110030b60030b6ull,0x110030b70030b7ull,0x110030b80030b8ull,0x110030b90030b9ull,0x110030ba0030baull,0x110030bb0030bbull,0x110030bc0030bcull,0x110030bd0030bdull,0x110030be0030beull,0x110030bf0030bfull,0x110030c00030c0ull,0x110030c10030c1ull,0x110030c20030c2ull,0x110030c30030c3ull,0x110030c40030c4ull,0x110030c50030c5ull,0x110030c60030c6ull,0x110030c70030c7ull,0x110030c80030c8ull,0x110030c90030c9ull,0x110030ca0030caull,0x110030cb0030cbull,0x110030cc0030ccull,0x110030cd0030cdull,0x110030ce0030ceull,0x110030cf0030cfull,0x110030d00030d0ull,0x110030d10030d1ull,0x110030d20030d2ull,0x110030d30030d3ull,0x110030d40030d4ull,0x110030d50030d5ull,0x110030d60030d6ull,0x110030d70030d7ull,0x110030d80030d8ull,0x110030d90030d9ull,0x110030da0030daull,0x110030db0030dbull,0x110030dc0030dcull,0x110030dd0030ddull,0x110030de0030deull,0x110030df0030dfull,0x110030e00030e0ull,0x110030e10030e1ull,0x110030e20030e2ull,0x110030e30030e3ull,0x110030e40030e4ull,0x110030e50030e5ull,0x110030e60030e6ull,0x110030e70030e7ull,0x110030e80030e8ull,0x110030e90030e9ull,0x110030ea0030eaull,0x110030eb0030ebull,0x110030ec0030ecull,0x110030ed0030edull,0x110030ee0030eeull,0x110030ef0030efull,0x110030f00030f0ull,0x110030f10030f1ull,0x110030f20030f2ull,0x110030f30030f3ull,0x110030f40030f4ull,0x110030f50030f5ull,0x110030f60030f6ull,0x110030f70030f7ull,0x110030f80030f8ull,0x110030f90030f9ull,0x110030fa0030faull};
static const u64 T10[]={0x1000ff1000ff10ull,0x1000ff1100ff11ull,0x1000ff1200ff12ull,0x1000ff1300ff13ull,0x1000ff1400ff14ull,0x1000ff1500ff15ull,0x1000ff1600ff16ull,0x1000ff1700ff17ull,0x1000ff1800ff18ull,0x1000ff1900ff19ull,0x1000ff1a00ff1aull,0x1000ff1b00ff1bull,0x1000ff1c00ff1cull,0x1000ff1d00ff1dull,0x1000ff1e00ff1eull,0x1000ff1f00ff1full,0x1000ff2000ff20ull,0x1300ff2100ff41ull,0x1300ff2200ff42ull,0x1300ff2300ff43ull,0x1300ff2400ff44ull,0x1300ff2500ff45ull,0x1300ff2600ff46ull,0x1300ff2700ff47ull,0x1300ff2800ff48ull,0x1300ff2900ff49ull,0x1300ff2a00ff4aull,0x1300ff2b00ff4bull,0x1300ff2c00ff4cull,0x1300ff2d00ff4dull,0x1300ff2e00ff4eull,0x1300ff2f00ff4full,0x1300ff3000ff50ull,0x1300ff3100ff51ull,0x1300ff3200ff52ull,0x1300ff3300ff53ull,0x1300ff3400ff54ull,0x1300ff3500ff55ull,0x1300ff3600ff56ull,0x1300ff3700ff57ull,0x1300ff3800ff58ull,0x1300ff3900ff59ull,0x1300ff3a00ff5aull,0x1000ff3b00ff3bull,0x1000ff3c00ff3cull,0x1000ff3d00ff3dull,0x1000ff3e00ff3eull,0x1000ff3f00ff3full,0x1000ff4000ff40ull,0x1500ff2100ff41ull,0x1500ff2200ff42ull,0x1500ff2300ff43ull,0x1500ff2400ff44ull,0x1500ff2500ff45ull,0x1500ff2600ff46ull,0x1500ff2700ff47ull,0x1500ff2800ff48ull,0x1500ff2900ff49ull,0x1500ff2a00ff4aull,0x1500ff2b00ff4bull,0x1500ff2c00ff4cull,0x1500ff2d00ff4dull,0x1500ff2e00ff4eull,0x1500ff2f00ff4full,0x1500ff3000ff50ull,0x1500ff3100ff51ull,0x1500ff3200ff52ull,0x1500ff3300ff53ull,0x1500ff3400ff54ull,0x1500ff3500ff55ull,0x1500ff3600ff56ull,0x1500ff3700ff57ull,0x1500ff3800ff58ull,0x1500ff3900ff59ull,0x1500ff3a00ff5aull};
static const u64 T11[]={0x80000243000180ull,0x40000181000253ull,0x40000182000183ull,0x40000182000183ull,0x40000184000185ull,0x40000184000185ull,0x40000186000254ull,0x40000187000188ull,0x40000187000188ull,0x40000189000256ull,0x4000018a000257ull,0x4000018b00018cull,0x4000018b00018cull,0x4000018d00018dull,0x8000018e0001ddull,0x4000018f000259ull,0x4000019000025bull,0x40000191000192ull,0x40000191000192ull,0x40000193000260ull,0x40000194000263ull,0x800001f6000195ull,0x40000196000269ull,0x40000197000268ull,0x40000198000199ull,0x40000198000199ull,0x8000023d00019aull,0x4000019b00019bull,0x4000019c00026full,0x4000019d000272ull,0x8000022000019eull,0x8000019f000275ull,0x400001a00001a1ull,0x400001a00001a1ull,0x400001a20001a3ull,0x400001a20001a3ull,0x400001a40001a5ull,0x400001a40001a5ull,0x800001a6000280ull,0x400001a70001a8ull,0x400001a70001a8ull,0x400001a9000283ull,0x400001aa0001aaull,0x400001ab0001abull,0x400001ac0001adull,0x400001ac0001adull,0x400001ae000288ull,0x400001af0001b0ull,0x400001af0001b0ull,0x400001b100028aull,0x400001b200028bull,0x400001b30001b4ull,0x400001b30001b4ull,0x400001b50001b6ull,0x400001b50001b6ull,0x400001b7000292ull,0x400001b80001b9ull,0x400001b80001b9ull,0x400001ba0001baull,0x400001bb0001bbull,0x400001bc0001bdull,0x400001bc0001bdull,0x400001be0001beull,0x800001f70001bfull,0x400001c00001c0ull,0x400001c10001c1ull,0x400001c20001c2ull,0x400001c30001c3ull,0x400001c40001c6ull,0x400001c40001c6ull,0x400001c40001c6ull,0x400001c70001c9ull,0x400001c70001c9ull,0x400001c70001c9ull,0x400001ca0001ccull,0x400001ca0001ccull,0x400001ca0001ccull,0x400001cd0001ceull,0x400001cd0001ceull,0x400001cf0001d0ull,0x400001cf0001d0ull,0x400001d10001d2ull,0x400001d10001d2ull,0x400001d30001d4ull,0x400001d30001d4ull,0x400001d50001d6ull,0x400001d50001d6ull,0x400001d70001d8ull,0x400001d70001d8ull,0x400001d90001daull,0x400001d90001daull,0x400001db0001dcull,0x400001db0001dcull,0x8000018e0001ddull,0x400001de0001dfull,0x400001de0001dfull,0x400001e00001e1ull,0x400001e00001e1ull,0x400001e20001e3ull,0x400001e20001e3ull,0x400001e40001e5ull,0x400001e40001e5ull,0x400001e60001e7ull,0x400001e60001e7ull,0x400001e80001e9ull,0x400001e80001e9ull,0x400001ea0001ebull,0x400001ea0001ebull,0x400001ec0001edull,0x400001ec0001edull,0x400001ee0001efull,0x400001ee0001efull,0x400001f00001f0ull,0x400001f10001f3ull,0x400001f10001f3ull,0x400001f10001f3ull,0x400001f40001f5ull,0x400001f40001f5ull,0x800001f6000195ull,0x800001f70001bfull,0x800001f80001f9ull,0x800001f80001f9ull,0x400001fa0001fbull,0x400001fa0001fbull,0x400001fc0001fdull,0x400001fc0001fdull,0x400001fe0001ffull,0x400001fe0001ffull,0x40000200000201ull,0x40000200000201ull,0x40000202000203ull,0x40000202000203ull,0x40000204000205ull,0x40000204000205ull,0x40000206000207ull,0x40000206000207ull,0x40000208000209ull,0x40000208000209ull,0x4000020a00020bull,0x4000020a00020bull,0x4000020c00020dull,0x4000020c00020dull,0x4000020e00020full,0x4000020e00020full,0x40000210000211ull,0x40000210000211ull,0x40000212000213ull,0x40000212000213ull,0x40000214000215ull,0x40000214000215ull,0x40000216000217ull,0x40000216000217ull};
static const u64 T12[]={0x80002c6f000250ull,0x80002c6d000251ull,0x80002c70000252ull,0x40000181000253ull,0x40000186000254ull,0x40000255000255ull,0x40000189000256ull,0x4000018a000257ull,0x80000258000258ull,0x4000018f000259ull,0x4000025a00025aull,0x4000019000025bull,0x8000a7ab00025cull,0x4000025d00025dull,0x4000025e00025eull,0x4000025f00025full,0x40000193000260ull,0x8000a7ac000261ull,0x40000262000262ull,0x40000194000263ull,0x40000264000264ull,0x8000a78d000265ull,0x8000a7aa000266ull,0x40000267000267ull,0x40000197000268ull,0x40000196000269ull,0x8000a7ae00026aull,0x80002c6200026bull,0x8000a7ad00026cull,0x4000026d00026dull,0x4000026e00026eull,0x4000019c00026full,0x40000270000270ull,0x80002c6e000271ull,0x4000019d000272ull,0x40000273000273ull,0x40000274000274ull,0x8000019f000275ull,0x40000276000276ull,0x40000277000277ull,0x40000278000278ull,0x40000279000279ull,0x4000027a00027aull,0x4000027b00027bull,0x4000027c00027cull,0x80002c6400027dull,0x4000027e00027eull,0x4000027f00027full,0x800001a6000280ull,0x40000281000281ull,0x8000a7c5000282ull,0x400001a9000283ull,0x40000284000284ull,0x40000285000285ull,0x40000286000286ull,0x8000a7b1000287ull,0x400001ae000288ull,0x80000244000289ull,0x400001b100028aull,0x400001b200028bull,0x8000024500028cull,0x4000028d00028dull,0x4000028e00028eull,0x4000028f00028full,0x40000290000290ull,0x40000291000291ull,0x400001b7000292ull,0x40000293000293ull,0x40000294000294ull,0x40000295000295ull,0x40000296000296ull,0x40000297000297ull,0x40000298000298ull,0x40000299000299ull,0x4000029a00029aull,0x4000029b00029bull,0x4000029c00029cull,0x8000a7b200029dull,0x8000a7b000029eull,0x4000029f00029full,0x400002a00002a0ull,0x400002a10002a1ull,0x400002a20002a2ull,0x400002a30002a3ull,0x400002a40002a4ull,0x400002a50002a5ull,0x400002a60002a6ull,0x400002a70002a7ull,0x400002a80002a8ull,0x400002a90002a9ull,0x400002aa0002aaull,0x400002ab0002abull,0x400002ac0002acull,0x400002ad0002adull,0x400002ae0002aeull,0x400002af0002afull};
static const u64 T13[]={0x40000482000482ull,0x40000483000483ull,0x40000484000484ull,0x40000485000485ull,0x40000486000486ull,0x40000487000487ull,0x40000488000488ull,0x40000489000489ull,0x8000048a00048bull,0x8000048a00048bull,0x8000048c00048dull,0x8000048c00048dull,0x8000048e00048full,0x8000048e00048full,0x40000490000491ull,0x40000490000491ull,0x40000492000493ull,0x40000492000493ull,0x40000494000495ull,0x40000494000495ull,0x40000496000497ull,0x40000496000497ull,0x40000498000499ull,0x40000498000499ull,0x4000049a00049bull,0x4000049a00049bull,0x4000049c00049dull,0x4000049c00049dull,0x4000049e00049full,0x4000049e00049full,0x400004a00004a1ull,0x400004a00004a1ull,0x400004a20004a3ull,0x400004a20004a3ull,0x400004a40004a5ull,0x400004a40004a5ull,0x400004a60004a7ull,0x400004a60004a7ull,0x400004a80004a9ull,0x400004a80004a9ull,0x400004aa0004abull,0x400004aa0004abull,0x400004ac0004adull,0x400004ac0004adull,0x400004ae0004afull,0x400004ae0004afull,0x400004b00004b1ull,0x400004b00004b1ull,0x400004b20004b3ull,0x400004b20004b3ull,0x400004b40004b5ull,0x400004b40004b5ull,0x400004b60004b7ull,0x400004b60004b7ull,0x400004b80004b9ull,0x400004b80004b9ull,0x400004ba0004bbull,0x400004ba0004bbull,0x400004bc0004bdull,0x400004bc0004bdull,0x400004be0004bfull,0x400004be0004bfull,0x800004c00004cfull,0x400004c10004c2ull,0x400004c10004c2ull,0x400004c30004c4ull,0x400004c30004c4ull,0x800004c50004c6ull,0x800004c50004c6ull,0x400004c70004c8ull,0x400004c70004c8ull,0x800004c90004caull,0x800004c90004caull,0x400004cb0004ccull,0x400004cb0004ccull,0x800004cd0004ceull,0x800004cd0004ceull,0x800004c00004cfull,0x400004d00004d1ull,0x400004d00004d1ull,0x400004d20004d3ull,0x400004d20004d3ull,0x400004d40004d5ull,0x400004d40004d5ull,0x400004d60004d7ull,0x400004d60004d7ull,0x400004d80004d9ull,0x400004d80004d9ull,0x400004da0004dbull,0x400004da0004dbull,0x400004dc0004ddull,0x400004dc0004ddull,0x400004de0004dfull,0x400004de0004dfull,0x400004e00004e1ull,0x400004e00004e1ull,0x400004e20004e3ull,0x400004e20004e3ull,0x400004e40004e5ull,0x400004e40004e5ull,0x400004e60004e7ull,0x400004e60004e7ull,0x400004e80004e9ull,0x400004e80004e9ull,0x400004ea0004ebull,0x400004ea0004ebull,0x800004ec0004edull,0x800004ec0004edull,0x400004ee0004efull,0x400004ee0004efull,0x400004f00004f1ull,0x400004f00004f1ull,0x400004f20004f3ull,0x400004f20004f3ull,0x400004f40004f5ull,0x400004f40004f5ull,0x800004f60004f7ull,0x800004f60004f7ull,0x400004f80004f9ull,0x400004f80004f9ull};
static const u64 T14[]={0x40001f08001f00ull,0x40001f09001f01ull,0x40001f0a001f02ull,0x40001f0b001f03ull,0x40001f0c001f04ull,0x40001f0d001f05ull,0x40001f0e001f06ull,0x40001f0f001f07ull,0x40001f08001f00ull,0x40001f09001f01ull,0x40001f0a001f02ull,0x40001f0b001f03ull,0x40001f0c001f04ull,0x40001f0d001f05ull,0x40001f0e001f06ull,0x40001f0f001f07ull,0x40001f18001f10ull,0x40001f19001f11ull,0x40001f1a001f12ull,0x40001f1b001f13ull,0x40001f1c001f14ull,0x40001f1d001f15ull,0x40001f16001f16ull,0x40001f17001f17ull,0x40001f18001f10ull,0x40001f19001f11ull,0x40001f1a001f12ull,0x40001f1b001f13ull,0x40001f1c001f14ull,0x40001f1d001f15ull,0x40001f1e001f1eull,0x40001f1f001f1full,0x40001f28001f20ull,0x40001f29001f21ull,0x40001f2a001f22ull,0x40001f2b001f23ull,0x40001f2c001f24ull,0x40001f2d001f25ull,0x40001f2e001f26ull,0x40001f2f001f27ull,0x40001f28001f20ull,0x40001f29001f21ull,0x40001f2a001f22ull,0x40001f2b001f23ull,0x40001f2c001f24ull,0x40001f2d001f25ull,0x40001f2e001f26ull,0x40001f2f001f27ull,0x40001f38001f30ull,0x40001f39001f31ull,0x40001f3a001f32ull,0x40001f3b001f33ull,0x40001f3c001f34ull,0x40001f3d001f35ull,0x40001f3e001f36ull,0x40001f3f001f37ull,0x40001f38001f30ull,0x40001f39001f31ull,0x40001f3a001f32ull,0x40001f3b001f33ull,0x40001f3c001f34ull,0x40001f3d001f35ull,0x40001f3e001f36ull,0x40001f3f001f37ull,0x40001f48001f40ull,0x40001f49001f41ull,0x40001f4a001f42ull,0x40001f4b001f43ull,0x40001f4c001f44ull,0x40001f4d001f45ull,0x40001f46001f46ull,0x40001f47001f47ull,0x40001f48001f40ull,0x40001f49001f41ull,0x40001f4a001f42ull,0x40001f4b001f43ull,0x40001f4c001f44ull,0x40001f4d001f45ull,0x40001f4e001f4eull,0x40001f4f001f4full,0x40001f50001f50ull,0x40001f59001f51ull,0x40001f52001f52ull,0x40001f5b001f53ull,0x40001f54001f54ull,0x40001f5d001f55ull,0x40001f56001f56ull,0x40001f5f001f57ull,0x40001f58001f58ull,0x40001f59001f51ull,0x40001f5a001f5aull,0x40001f5b001f53ull,0x40001f5c001f5cull,0x40001f5d001f55ull,0x40001f5e001f5eull,0x40001f5f001f57ull,0x40001f68001f60ull,0x40001f69001f61ull,0x40001f6a001f62ull,0x40001f6b001f63ull,0x40001f6c001f64ull,0x40001f6d001f65ull,0x40001f6e001f66ull,0x40001f6f001f67ull,0x40001f68001f60ull,0x40001f69001f61ull,0x40001f6a001f62ull,0x40001f6b001f63ull,0x40001f6c001f64ull,0x40001f6d001f65ull,0x40001f6e001f66ull,0x40001f6f001f67ull,0x40001fba001f70ull,0x40001fbb001f71ull,0x40001fc8001f72ull,0x40001fc9001f73ull,0x40001fca001f74ull,0x40001fcb001f75ull,0x40001fda001f76ull,0x40001fdb001f77ull,0x40001ff8001f78ull,0x40001ff9001f79ull,0x40001fea001f7aull,0x40001feb001f7bull,0x40001ffa001f7cull,0x40001ffb001f7dull,0x40001f7e001f7eull,0x40001f7f001f7full,0x80001f80001f80ull,0x80001f81001f81ull,0x80001f82001f82ull,0x80001f83001f83ull,0x80001f84001f84ull,0x80001f85001f85ull,0x80001f86001f86ull,0x80001f87001f87ull,0x40001f88001f80ull,0x40001f89001f81ull,0x40001f8a001f82ull,0x40001f8b001f83ull,0x40001f8c001f84ull,0x40001f8d001f85ull,0x40001f8e001f86ull,0x40001f8f001f87ull,0x80001f90001f90ull,0x80001f91001f91ull,0x80001f92001f92ull,0x80001f93001f93ull,0x80001f94001f94ull,0x80001f95001f95ull,0x80001f96001f96ull,0x80001f97001f97ull,0x40001f98001f90ull,0x40001f99001f91ull,0x40001f9a001f92ull,0x40001f9b001f93ull,0x40001f9c001f94ull,0x40001f9d001f95ull,0x40001f9e001f96ull,0x40001f9f001f97ull,0x80001fa0001fa0ull,0x80001fa1001fa1ull,0x80001fa2001fa2ull,0x80001fa3001fa3ull,0x80001fa4001fa4ull,0x80001fa5001fa5ull,0x80001fa6001fa6ull,0x80001fa7001fa7ull,0x40001fa8001fa0ull,0x40001fa9001fa1ull,0x40001faa001fa2ull,0x40001fab001fa3ull,0x40001fac001fa4ull,0x40001fad001fa5ull,0x40001fae001fa6ull,0x40001faf001fa7ull,0x40001fb8001fb0ull,0x40001fb9001fb1ull,0x40001fb2001fb2ull,0x80001fb3001fb3ull,0x40001fb4001fb4ull,0x40001fb5001fb5ull,0x40001fb6001fb6ull,0x40001fb7001fb7ull,0x40001fb8001fb0ull,0x40001fb9001fb1ull,0x40001fba001f70ull,0x40001fbb001f71ull,0x40001fbc001fb3ull,0x40001fbd001fbdull,0x80000399001fbeull,0x40001fbf001fbfull,0x40001fc0001fc0ull,0x40001fc1001fc1ull,0x40001fc2001fc2ull,0x80001fc3001fc3ull,0x40001fc4001fc4ull,0x40001fc5001fc5ull,0x40001fc6001fc6ull,0x40001fc7001fc7ull,0x40001fc8001f72ull,0x40001fc9001f73ull,0x40001fca001f74ull,0x40001fcb001f75ull,0x40001fcc001fc3ull,0x40001fcd001fcdull,0x40001fce001fceull,0x40001fcf001fcfull,0x40001fd8001fd0ull,0x40001fd9001fd1ull,0x40001fd2001fd2ull,0x40001fd3001fd3ull,0x40001fd4001fd4ull,0x40001fd5001fd5ull,0x40001fd6001fd6ull,0x40001fd7001fd7ull,0x40001fd8001fd0ull,0x40001fd9001fd1ull,0x40001fda001f76ull,0x40001fdb001f77ull,0x40001fdc001fdcull,0x40001fdd001fddull,0x40001fde001fdeull,0x40001fdf001fdfull,0x40001fe8001fe0ull,0x40001fe9001fe1ull,0x40001fe2001fe2ull,0x40001fe3001fe3ull,0x40001fe4001fe4ull,0x40001fec001fe5ull,0x40001fe6001fe6ull,0x40001fe7001fe7ull,0x40001fe8001fe0ull,0x40001fe9001fe1ull,0x40001fea001f7aull,0x40001feb001f7bull,0x40001fec001fe5ull,0x40001fed001fedull,0x40001fee001feeull,0x40001fef001fefull,0x40001ff0001ff0ull,0x40001ff1001ff1ull,0x40001ff2001ff2ull,0x80001ff3001ff3ull,0x40001ff4001ff4ull,0x40001ff5001ff5ull,0x40001ff6001ff6ull,0x40001ff7001ff7ull,0x40001ff8001f78ull,0x40001ff9001f79ull,0x40001ffa001f7cull,0x40001ffb001f7dull,0x40001ffc001ff3ull};
static const u64 T15[]={0x40002160002170ull,0x40002161002171ull,0x40002162002172ull,0x40002163002173ull,0x40002164002174ull,0x40002165002175ull,0x40002166002176ull,0x40002167002177ull,0x40002168002178ull,0x40002169002179ull,0x4000216a00217aull,0x4000216b00217bull,0x4000216c00217cull,0x4000216d00217dull,0x4000216e00217eull,0x4000216f00217full,0x40002160002170ull,0x40002161002171ull,0x40002162002172ull,0x40002163002173ull,0x40002164002174ull,0x40002165002175ull,0x40002166002176ull,0x40002167002177ull,0x40002168002178ull,0x40002169002179ull,0x4000216a00217aull,0x4000216b00217bull,0x4000216c00217cull,0x4000216d00217dull,0x4000216e00217eull,0x4000216f00217full};
static const u64 T16[]={0x400024b60024d0ull,0x400024b70024d1ull,0x400024b80024d2ull,0x400024b90024d3ull,0x400024ba0024d4ull,0x400024bb0024d5ull,0x400024bc0024d6ull,0x400024bd0024d7ull,0x400024be0024d8ull,0x400024bf0024d9ull,0x400024c00024daull,0x400024c10024dbull,0x400024c20024dcull,0x400024c30024ddull,0x400024c40024deull,0x400024c50024dfull,0x400024c60024e0ull,0x400024c70024e1ull,0x400024c80024e2ull,0x400024c90024e3ull,0x400024ca0024e4ull,0x400024cb0024e5ull,0x400024cc0024e6ull,0x400024cd0024e7ull,0x400024ce0024e8ull,0x400024cf0024e9ull,0x400024b60024d0ull,0x400024b70024d1ull,0x400024b80024d2ull,0x400024b90024d3ull,0x400024ba0024d4ull,0x400024bb0024d5ull,0x400024bc0024d6ull,0x400024bd0024d7ull,0x400024be0024d8ull,0x400024bf0024d9ull,0x400024c00024daull,0x400024c10024dbull,0x400024c20024dcull,0x400024c30024ddull,0x400024c40024deull,0x400024c50024dfull,0x400024c60024e0ull,0x400024c70024e1ull,0x400024c80024e2ull,0x400024c90024e3ull,0x400024ca0024e4ull,0x400024cb0024e5ull,0x400024cc0024e6ull,0x400024cd0024e7ull,0x400024ce0024e8ull,0x400024cf0024e9ull};
static const u64*const T[]={T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11,T12,T13,T14,T15,T16};
static const u32 LO[]={0x0,0x80,0x100,0x386,0x401,0x531,0x5d0,0x1e00,0x1ea0,0x3041,0xff10,0x180,0x250,0x482,0x1f00,0x2160,0x24b6},HI[]={0x7f,0xff,0x17f,0x3ce,0x481,0x586,0x5ea,0x1e9a,0x1ef9,0x30fa,0xff5a,0x217,0x2af,0x4f9,0x1ffc,0x217f,0x24e9};
u64 r_nblk(void){return sizeof T/sizeof*T;} u32 r_blo(u64 b){return LO[b];} u32 r_bhi(u64 b){return HI[b];}
/* lower | upper << 24 | flags << 48: 1 letter, 2 upper case, 4 lower case, 8.. cell width (3: -1), 0x40: only case mapping, 0x80: not compared */
u64 r_chr(u64 b,u32 c){return T[b][c-LO[b]];}
static const u32 N[]={0x660,0x6f0,0x7c0,0x966,0x9e6,0xa66,0xae6,0xb66,0xbe6,0xc66,0xce6,0xd66,0xe50,0xed0,0xf20,0x1040,0x17e0,0x1810,0x1946,0x19d0,0x1b50,0xff10,0x104a0};
u8 r_isnum(u32 c){ u8 r=c-0x30<10; for(unsigned i=0;i<sizeof N/4;i++) r|=c-N[i]<10; return r|(c-0x1d7ce<50); }
u8 r_isblank(u32 c){ return (c==9)|(c==0x20)|(c==0x85)|(c==0xa0)|(c==0x1680)|(c==0x180e)|(c-0x2000<12)|(c-0x2028<2)|(c==0x202f)|(c==0x205f)|(c==0x3000)|(c==0xfeff); }
/* the value of a digit in a base, or -1 */
i64 r_charval(u32 c,i64 b){ i64 v=-1; if(c>='0'&&c<='9')v=c-'0'; else if(c>='a'&&c<='z')v=c-'a'+10; else if(c>='A'&&c<='Z')v=c-'A'+10; return v<b?v:-1; }
