#include "crc16_a.h"
#include "crc16_arc.h"
#include "crc16_aug_ccit.h"
#include "crc16_buypass.h"
#include "crc16_ccit_false.h"
#include "crc16_ccit_zero.h"
#include "crc16_cdma2000.h"
#include "crc16_dds110.h"
#include "crc16_dect_r.h"
#include "crc16_dect_x.h"
#include "crc16_dnp.h"
#include "crc16_en_13757.h"
#include "crc16_genibus.h"
#include "crc16_kermit.h"
#include "crc16_maxim.h"
#include "crc16_mcrf4xx.h"
#include "crc16_modbus.h"
#include "crc16_riello.h"
#include "crc16_t10_dif.h"
#include "crc16_teledisk.h"
#include "crc16_tms37157.h"
#include "crc16_usb.h"
#include "crc16_x_25.h"
#include "crc32.h"
#include "crc32_bzip2.h"
#include "crc32_c.h"
#include "crc32_d.h"
#include "crc32_jamcrc.h"
#include "crc32_mpeg2.h"
#include "crc32_posix.h"
#include "crc32_q.h"
#include "crc32_xfer.h"
#include "crc8.h"
#include "crc8_8h2f.h"
#include "crc8_cdma2000.h"
#include "crc8_darc.h"
#include "crc8_dvb_s2.h"
#include "crc8_ebu.h"
#include "crc8_icode.h"
#include "crc8_itu.h"
#include "crc8_maxim.h"
#include "crc8_rohc.h"
#include "crc8_sae_j1850.h"
#include "crc8_sae_j1850_zero.h"
#include "crc8_wcdma.h"

static uint32_t call_Crc16_a(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_a(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_arc(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_arc(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_augCcit(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_augCcit(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_buypass(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_buypass(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_ccitFalse(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_ccitFalse(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_ccitZero(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_ccitZero(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_cdma2000(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_cdma2000(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_dds110(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_dds110(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_dectR(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_dectR(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_dectX(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_dectX(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_dnp(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_dnp(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_en13757(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_en13757(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_genibus(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_genibus(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_kermit(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_kermit(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_maxim(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_maxim(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_mcrf4xx(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_mcrf4xx(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_modbus(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_modbus(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_riello(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_riello(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_t10Dif(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_t10Dif(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_teledisk(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_teledisk(d, n, last ? &l : NULL);
}
static uint32_t call_Crc16_tms37157(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_tms37157(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_usb(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_usb(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc16_x25(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint16_t l = last ? (uint16_t)*last : 0;
    (void)fin;
    return Crc16_x25(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc32(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc32_bzip2(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_bzip2(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc32_c(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_c(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc32_d(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_d(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc32_jamcrc(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_jamcrc(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc32_mpeg2(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_mpeg2(d, n, last ? &l : NULL);
}
static uint32_t call_Crc32_posix(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_posix(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc32_q(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_q(d, n, last ? &l : NULL);
}
static uint32_t call_Crc32_xfer(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint32_t l = last ? (uint32_t)*last : 0;
    (void)fin;
    return Crc32_xfer(d, n, last ? &l : NULL);
}
static uint32_t call_Crc8(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8(d, n, last ? &l : NULL);
}
static uint32_t call_Crc8_8h2f(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_8h2f(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc8_cdma2000(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_cdma2000(d, n, last ? &l : NULL);
}
static uint32_t call_Crc8_darc(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_darc(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc8_dvbS2(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_dvbS2(d, n, last ? &l : NULL);
}
static uint32_t call_Crc8_ebu(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_ebu(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc8_icode(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_icode(d, n, last ? &l : NULL);
}
static uint32_t call_Crc8_itu(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_itu(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc8_maxim(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_maxim(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc8_rohc(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_rohc(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc8_saeJ1850(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_saeJ1850(d, n, fin, last ? &l : NULL);
}
static uint32_t call_Crc8_saeJ1850Zero(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_saeJ1850Zero(d, n, last ? &l : NULL);
}
static uint32_t call_Crc8_wcdma(const uint8_t* d, uint32_t n, bool fin, const uint32_t* last) { EDGE
    uint8_t l = last ? (uint8_t)*last : 0;
    (void)fin;
    return Crc8_wcdma(d, n, fin, last ? &l : NULL);
}

const v_crc_t v_crcs[] = {
    {"Crc16_a", 16, true, 0x1021U, 0xC6C6U, 0x0U, true, 0xBF05U, call_Crc16_a},
    {"Crc16_arc", 16, true, 0x8005U, 0x0U, 0x0U, true, 0xBB3DU, call_Crc16_arc},
    {"Crc16_augCcit", 16, false, 0x1021U, 0x1D0FU, 0x0U, false, 0xE5CCU, call_Crc16_augCcit},
    {"Crc16_buypass", 16, false, 0x8005U, 0x0U, 0x0U, false, 0xFEE8U, call_Crc16_buypass},
    {"Crc16_ccitFalse", 16, false, 0x1021U, 0xFFFFU, 0x0U, false, 0x29B1U, call_Crc16_ccitFalse},
    {"Crc16_ccitZero", 16, false, 0x1021U, 0x0U, 0x0U, false, 0x31C3U, call_Crc16_ccitZero},
    {"Crc16_cdma2000", 16, false, 0xC867U, 0xFFFFU, 0x0U, false, 0x4C06U, call_Crc16_cdma2000},
    {"Crc16_dds110", 16, false, 0x8005U, 0x800DU, 0x0U, false, 0x9ECFU, call_Crc16_dds110},
    {"Crc16_dectR", 16, true, 0x0589U, 0x0U, 0x1U, false, 0x007EU, call_Crc16_dectR},
    {"Crc16_dectX", 16, false, 0x0589U, 0x0U, 0x0U, false, 0x007FU, call_Crc16_dectX},
    {"Crc16_dnp", 16, true, 0x3D65U, 0x0U, 0xFFFFU, true, 0xEA82U, call_Crc16_dnp},
    {"Crc16_en13757", 16, true, 0x3D65U, 0x0U, 0xFFFFU, false, 0xC2B7U, call_Crc16_en13757},
    {"Crc16_genibus", 16, true, 0x1021U, 0xFFFFU, 0xFFFFU, false, 0xD64EU, call_Crc16_genibus},
    {"Crc16_kermit", 16, true, 0x1021U, 0x0U, 0x0U, true, 0x2189U, call_Crc16_kermit},
    {"Crc16_maxim", 16, true, 0x8005U, 0x0U, 0xFFFFU, true, 0x44C2U, call_Crc16_maxim},
    {"Crc16_mcrf4xx", 16, true, 0x1021U, 0xFFFFU, 0x0U, true, 0x6F91U, call_Crc16_mcrf4xx},
    {"Crc16_modbus", 16, true, 0x8005U, 0xFFFFU, 0x0U, true, 0x4B37U, call_Crc16_modbus},
    {"Crc16_riello", 16, true, 0x1021U, 0xB2AAU, 0x0U, true, 0x63D0U, call_Crc16_riello},
    {"Crc16_t10Dif", 16, false, 0x8BB7U, 0x0U, 0x0U, false, 0xD0DBU, call_Crc16_t10Dif},
    {"Crc16_teledisk", 16, false, 0xA097U, 0x0U, 0x0U, false, 0x0FB3U, call_Crc16_teledisk},
    {"Crc16_tms37157", 16, true, 0x1021U, 0x89ECU, 0x0U, true, 0x26B1U, call_Crc16_tms37157},
    {"Crc16_usb", 16, true, 0x8005U, 0xFFFFU, 0xFFFFU, true, 0xB4C8U, call_Crc16_usb},
    {"Crc16_x25", 16, true, 0x1021U, 0xFFFFU, 0xFFFFU, true, 0x906EU, call_Crc16_x25},
    {"Crc32", 32, true, 0x04C11DB7U, 0xFFFFFFFFU, 0xFFFFFFFFU, true, 0xCBF43926U, call_Crc32},
    {"Crc32_bzip2", 32, true, 0x04C11DB7U, 0xFFFFFFFFU, 0xFFFFFFFFU, false, 0xFC891918U, call_Crc32_bzip2},
    {"Crc32_c", 32, true, 0x1EDC6F41U, 0xFFFFFFFFU, 0xFFFFFFFFU, true, 0xE3069283U, call_Crc32_c},
    {"Crc32_d", 32, true, 0xA833982BU, 0xFFFFFFFFU, 0xFFFFFFFFU, true, 0x87315576U, call_Crc32_d},
    {"Crc32_jamcrc", 32, true, 0x04C11DB7U, 0xFFFFFFFFU, 0x0U, true, 0x340BC6D9U, call_Crc32_jamcrc},
    {"Crc32_mpeg2", 32, false, 0x04C11DB7U, 0xFFFFFFFFU, 0x0U, false, 0x0376E6E7U, call_Crc32_mpeg2},
    {"Crc32_posix", 32, true, 0x04C11DB7U, 0x0U, 0xFFFFFFFFU, false, 0x765E7680U, call_Crc32_posix},
    {"Crc32_q", 32, false, 0x814141ABU, 0x0U, 0x0U, false, 0x3010BF7FU, call_Crc32_q},
    {"Crc32_xfer", 32, false, 0x000000AFU, 0x0U, 0x0U, false, 0xBD0BE338U, call_Crc32_xfer},
    {"Crc8", 8, false, 0x07U, 0x0U, 0x0U, false, 0xF4U, call_Crc8},
    {"Crc8_8h2f", 8, true, 0x2FU, 0xFFU, 0xFFU, false, 0xDFU, call_Crc8_8h2f},
    {"Crc8_cdma2000", 8, false, 0x9BU, 0xFFU, 0x0U, false, 0xDAU, call_Crc8_cdma2000},
    {"Crc8_darc", 8, true, 0x39U, 0x0U, 0x0U, true, 0x15U, call_Crc8_darc},
    {"Crc8_dvbS2", 8, false, 0xD5U, 0x0U, 0x0U, false, 0xBCU, call_Crc8_dvbS2},
    {"Crc8_ebu", 8, true, 0x1DU, 0xFFU, 0x0U, true, 0x97U, call_Crc8_ebu},
    {"Crc8_icode", 8, false, 0x1DU, 0xFDU, 0x0U, false, 0x7EU, call_Crc8_icode},
    {"Crc8_itu", 8, true, 0x07U, 0x0U, 0x55U, false, 0xA1U, call_Crc8_itu},
    {"Crc8_maxim", 8, true, 0x31U, 0x0U, 0x0U, true, 0xA1U, call_Crc8_maxim},
    {"Crc8_rohc", 8, true, 0x07U, 0xFFU, 0x0U, true, 0xD0U, call_Crc8_rohc},
    {"Crc8_saeJ1850", 8, true, 0x1DU, 0xFFU, 0xFFU, false, 0x4BU, call_Crc8_saeJ1850},
    {"Crc8_saeJ1850Zero", 8, false, 0x1DU, 0x0U, 0x0U, false, 0x37U, call_Crc8_saeJ1850Zero},
    {"Crc8_wcdma", 8, true, 0x9BU, 0x0U, 0x0U, true, 0x25U, call_Crc8_wcdma},
};
const int v_crc_count = (int)(sizeof v_crcs / sizeof v_crcs[0]);
