import runpy
S=[s for s in runpy.run_path('/tmp/s/i.py')['S'] if s['id'] in('c22-text-narrow','c22-escape-loop')]
P=S[0]['demo'][:S[0]['demo'].index('int main')]
S[0]['demo']=P+'''int main(){ StringReader r; std::string t="300 "; r.setInput(t); REQ(throws([&]{ r.read<uint8_t>(); })); return 0; }'''
S.pop(1)
S[0]['demo']=P+'''
#include <DotsMember.dots.h>
#include <DotsStatistics.dots.h>
int main(){ StringReader r; std::string t="300 "; r.setInput(t); if(!throws([&]{ r.read<int8_t>(); })) { std::cerr << "a number that does not fit was accepted" << std::endl; return 1; } return 0; }'''
