PREW = r'''
#include <estd/string.h>
#include <estd/string_view.h>
'''
seed("wide-append-count", "C06", [("internal/string.h", "        while(count--) *this += c;", "        const value_type fill = static_cast<unsigned char>(c);\n\n        while(count--) *this += fill;")], PREW + r'''
int main() { estd::layer1::basic_string<char16_t, 20, false> s; s.append(3, (char16_t)0x2603); return s.size() == 3 && s[0] == 0x2603 && s[2] == 0x2603 ? 0 : 1; }
''', "repeating a character wider than a byte", "only its low byte is appended")
seed("wide-find-char", "C07", [("internal/string.h", "            if(*data++ == ch)", "            if(memcmp(data++, &ch, 1) == 0)")], PREW + r'''
int main() { estd::layer1::basic_string<char16_t, 20, false> s; static const char16_t t[] = { 0x6161, 0x61 }; s.append(t, 2); return s.find((char16_t)0x61) == 1 ? 0 : 1; }
''', "searching text of wide characters for one whose low byte occurs earlier", "another character is found")
