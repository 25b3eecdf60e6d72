from seedlib import seed
L = '-llog4cplus -lavutil -lavcodec -Wl,--unresolved-symbols=ignore-all'
seed('p16-codec-prefix', 'P16', [('src/Utils.cpp', 'if (stringCodec.compare("VP8") == 0)', 'if (stringCodec.compare(0, 2, "VP") == 0)'.replace('compare(0, 2, "VP") == 0', 'find("VP") == 0'))], '''
#include "Utils.hh"
int main() { return utils::getVideoCodecFromString("VP9") == VC_NONE && utils::getVideoCodecFromString("VP8") == VP8 ? 0 : 1; }
''', ['src/Utils.cpp'], 'the name of a codec that is not supported but starts like one that is', 'an unknown codec name is taken for VP8', libs='-llog4cplus')
seed('p16-role-default', 'P16', [('src/Utils.cpp', '           fRole = FR_NONE;', '           fRole = stringRoleType.empty() ? REGULAR : FR_NONE;')], '''
#include "Utils.hh"
int main() { return utils::getRoleTypeFromString("") == FR_NONE ? 0 : 1; }
''', ['src/Utils.cpp'], 'an empty role name', 'an unknown name converts to a valid role', libs='-llog4cplus')
