#pragma once
#define SOAPY_SDR_CF32 "CF32"
#define SOAPY_SDR_CS16 "CS16"
#define SOAPY_SDR_CS8 "CS8"
#define SOAPY_SDR_CU8 "CU8"
#define SOAPY_SDR_S32 "S32"
#define SOAPY_SDR_S16 "S16"
#define SOAPY_SDR_U8 "U8"
#define SOAPY_SDR_F32 "F32"
