// Names that differ although common short hashes of them (half of a 64-bit FNV, 32-bit FNV, djb2, sdbm, java, crc32) are equal, and
// long names differing in one character.
#include "model.h"
static const char* const pairs[][2] = {
    {"jtkbzo_", "owtfEDv"},   // f1a64lo
    {"drkCeAq", "FCAzmua"},   // f1a64lo
    {"ppBjedi", "goeBslz"},   // f1a64hi
    {"tsziose", "Fo_jrsH"},   // f1a64hi
    {"ici_HyH", "_ftevHl"},   // f1a64xf
    {"FngzbDx", "jfdzpEH"},   // f1a64xf
    {"lojb_op", "gk_aezf"},   // f1a32
    {"nmbaFyx", "drEEvmh"},   // f1a32
    {"oArBcBH", "kfECjks"},   // f1_32
    {"euxlodf", "nqsivlH"},   // f1_32
    {"mpBaeiB", "mpBbEHB"},   // djb2
    {"Dbvbibl", "EAvcHbl"},   // djb2
    {"Edzqcfr", "ohgiguf"},   // djb2x
    {"jlwwGDD", "_cDhisk"},   // djb2x
    {"xCmvHz", "wbmvHz"},   // java
    {"HBjmna", "Gajmna"},   // java
    {"FhhHujk", "leboguH"},   // sdbm
    {"Ajyxcby", "onowfBu"},   // sdbm
    {"xgybmGc", "jGzdohp"},   // crc32
    {"sCkDzEl", "ezwstkn"},   // crc32
    {"nEnHAoE", "gAxymaw"},   // f1_64lo
    {"BCy_dka", "DpdDqjp"},   // f1_64lo
};
static const unsigned NP = sizeof pairs / sizeof pairs[0];
std::string hostile_name(unsigned i) {
    unsigned p = i / 2 % (NP + 3), w = i % 2;
    if (p < NP) return pairs[p][w];
    std::string s(300, 'n'); s[p == NP ? 299 : p == NP + 1 ? 0 : 150] = (char)('o' + w); return s;
}
