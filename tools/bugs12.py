BUGS = []
def bug(**k): BUGS.append(k)
bug(id='c01-column-short', property='C01', needs='a row of more than 32767 columns',
    what='columns are counted with sixteen bits',
    edits=[('src/expr/operand_stack.h', 'void PushVar(int32_t index) {', 'void PushVar(int16_t index) {')],
    demo='''int main() {
  Tuple t;
  for (int i = 0; i < 80000; i++) t.push_back(i);
  RelRunner r;
  dec(r, "72" "31F0A204" "00");
  REQUIRE(put(r, t) == std::to_string((4 << 14) | (0x22 << 7) | 0x70));
}
''')
bug(id='c01-key-uint16', property='C01', needs='a key which is a column behind the 65535th',
    what='the columns of keys are taken modulo 65536',
    edits=[('src/expr/utils.cc', '(*tuple)[i] = src[index[i]];', '(*tuple)[i] = src[(unsigned short)index[i]];')],
    demo='''int main() {
  Tuple t;
  for (int i = 0; i < 80000; i++) t.push_back(i);
  RelRunner r;
  dec(r, "73" "6101F0A204" "0110");
  put(r, t);
  REQUIRE(get(r) == std::to_string((4 << 14) | (0x22 << 7) | 0x70) + ",1");
}
''')
