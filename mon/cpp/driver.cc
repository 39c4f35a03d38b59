// Executes recorded workloads against the C++ sources of one directory of /repo.
// Every command is one line, every answer is one line, flushed at once, so that
// a crash leaves the answers up to it.  What the answers should be is decided by
// the monitors in p_cpp.py.
#include <sys/wait.h>
#include <map>
#include <sstream>

#define main sample_main
#include "spdy4_headers_sample.cc"
#undef main

using std::cin;
using std::endl;
using std::getline;
using std::istringstream;
using std::string;
using std::vector;

static string Hex(const string& s) {
  static const char* d = "0123456789abcdef";
  string out;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    out += d[c >> 4];
    out += d[c & 15];
  }
  return out.empty() ? "-" : out;
}

static int Nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static string Unhex(const string& s) {
  string out;
  if (s == "-") return out;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    out += static_cast<char>(Nib(s[i]) * 16 + Nib(s[i + 1]));
  return out;
}

static vector<char> Vec(const string& s) { return vector<char>(s.begin(), s.end()); }

static string Contents(BitBucket& bb) {
  return Hex(string(bb.BytesBegin(), bb.BytesEnd()));
}

// -- the encoder ---------------------------------------------------------------
static void Codec(istream& in) {
  std::map<int, std::unique_ptr<SPDY4HeadersCodec> > live;
  string line;
  OutputStream shared;
  while (getline(in, line)) {
    istringstream is(line);
    string what;
    int id;
    is >> what >> id;
    if (what == "new") {
      string dir;
      long state, vals;
      is >> dir >> state >> vals;
      live[id].reset(new SPDY4HeadersCodec(
          dir == "req" ? FreqTables::request_freq_table
                       : FreqTables::response_freq_table));
      size_t start = live[id]->CurrentStateSize();
      if (state >= 0) live[id]->SetMaxStateSize(state);
      if (vals >= 0) live[id]->SetMaxVals(vals);
      cout << "new " << start << endl;
    } else if (what == "limits") {
      long state, vals;
      is >> state >> vals;
      if (state >= 0) live[id]->SetMaxStateSize(state);
      if (vals >= 0) live[id]->SetMaxVals(vals);
      cout << "limits" << endl;
    } else if (what == "end") {
      live.erase(id);
      cout << "end" << endl;
    } else if (what == "frame") {
      uint32_t stream, group;
      int ends, n, fresh;
      is >> stream >> group >> ends >> fresh >> n;
      std::unique_ptr<HeaderFrame> frame(new HeaderFrame);
      for (int i = 0; i < n; ++i) {
        string k, v;
        is >> k >> v;
        frame->push_back(KVPair(Unhex(k), Unhex(v)));
      }
      OutputStream own;
      OutputStream* os = fresh ? &own : &shared;
      size_t before = os->BytesRequired();
      live[id]->ProcessFrame(os, stream, group, *frame, ends);
      // nothing may keep a reference to the frame
      frame.reset();
      string all(os->BytesBegin(), os->BytesEnd());
      cout << "frame " << live[id]->CurrentStateSize() << " " << os->NumBits()
           << " " << Hex(all.substr(before)) << endl;
      if (!fresh && all.size() > 20000) shared.Clear();
    }
  }
}

// -- bit bucket ------------------------------------------------------------------
static void Bits(istream& in) {
  std::unique_ptr<BitBucket> bb(new BitBucket);
  string line;
  while (getline(in, line)) {
    istringstream is(line);
    string op;
    is >> op;
    if (op == "fresh") {
      bb.reset(new BitBucket);
      cout << op << endl;
    } else if (op == "bit") {
      int b; is >> b; bb->StoreBit(b); cout << op << endl;
    } else if (op == "s8") {
      uint32_t v; is >> v; bb->StoreBits8(v); cout << op << endl;
    } else if (op == "s16") {
      uint32_t v; is >> v; bb->StoreBits16(v); cout << op << endl;
    } else if (op == "s32") {
      uint32_t v; is >> v; bb->StoreBits32(v); cout << op << endl;
    } else if (op == "bits") {
      size_t n; string h; is >> n >> h;
      bb->StoreBits(Vec(Unhex(h)), n);
      cout << op << endl;
    } else if (op == "bytes") {
      string h; is >> h; string s = Unhex(h);
      bb->StoreBytes(s.begin(), s.end());
      cout << op << endl;
    } else if (op == "a8") {
      uint32_t v; is >> v; bb->StoreByteAlignedUint8(v); cout << op << endl;
    } else if (op == "a16") {
      uint32_t v; is >> v; bb->StoreByteAlignedUint16(v); cout << op << endl;
    } else if (op == "a32") {
      uint32_t v; is >> v; bb->StoreByteAlignedUint32(v); cout << op << endl;
    } else if (op == "av") {
      string h; is >> h; bb->StoreByteAligned(Vec(Unhex(h))); cout << op << endl;
    } else if (op == "get") {
      size_t n; is >> n;
      vector<char> out;
      bb->GetBits(&out, n);
      cout << op << " " << Hex(string(out.begin(), out.end())) << endl;
    } else if (op == "getbit") {
      cout << op << " " << bb->GetBit() << endl;
    } else if (op == "word") {
      uint32_t w; size_t n; is >> w >> n;
      bb->ShiftBitsIntoWord(&w, n);
      cout << op << " " << w << endl;
    } else if (op == "seek") {
      size_t n; is >> n; bb->Seek(n); cout << op << endl;
    } else if (op == "consume") {
      size_t n; is >> n; bb->ConsumeBits(n); cout << op << endl;
    } else if (op == "clear") {
      bb->Clear(); cout << op << endl;
    } else if (op == "overread") {
      // more bits than there are: must be refused
      size_t n; is >> n;
      cout << std::flush;
      pid_t pid = fork();
      if (!pid) {
        close(1); close(2);
        vector<char> out;
        bb->GetBits(&out, n);
        _exit(7);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      cout << op << " " << (WIFEXITED(st) && WEXITSTATUS(st) == 7 ? "allowed" : "refused")
           << endl;
    } else if (op == "show") {
      cout << op << " " << bb->NumBits() << " " << bb->BitsConsumed() << " "
           << bb->AllConsumed() << " " << bb->BytesRequired() << " " << Contents(*bb)
           << " " << bb->AsString() << endl;
    }
  }
}

// -- Huffman -----------------------------------------------------------------------
static void Huff(istream& in) {
  std::unique_ptr<Huffman> h(new Huffman);
  string line;
  while (getline(in, line)) {
    istringstream is(line);
    string op;
    is >> op;
    if (op == "table") {          // table named|again + name or 257 numbers
      string name;
      is >> name;
      FreqTable t;
      if (name == "request") t = FreqTables::request_freq_table;
      else if (name == "response") t = FreqTables::response_freq_table;
      else for (int i = 0; i < 257; ++i) {
        uint32_t f;
        is >> f;
        t[i] = std::make_pair(i, f);
      }
      if (name != "again") h.reset(new Huffman);
      h->Init(t);
      cout << op;
      for (int i = 0; i < 257; ++i) {
        BitBucket bb;
        if (i < 256) h->Encode(&bb, string(1, static_cast<char>(i)), false);
        else h->Encode(&bb, "", true);
        cout << " " << t[i].second << ":" << bb.NumBits() << ":" << Contents(bb);
      }
      cout << endl;
    } else if (op == "code") {    // code lead eof mode tail text
      size_t lead, tail;
      int eof, limit;
      string text;
      is >> lead >> eof >> limit >> tail >> text;
      text = Unhex(text);
      BitBucket bb;
      for (size_t i = 0; i < lead; ++i) bb.StoreBit(i & 1);
      h->Encode(&bb, text, eof);
      size_t end = bb.NumBits();
      string coded = Contents(bb);
      for (size_t i = 0; i < tail; ++i) bb.StoreBit(tail & 1);
      bb.Seek(lead);
      string out;
      int bits = limit ? static_cast<int>(end - lead) : 0;
      if (limit == 2) bits += 8;  // a limit that comes after the end
      if (bits || eof) h->Decode(&out, &bb, eof, bits);
      cout << op << " " << end << " " << coded << " " << Hex(out) << " "
           << bb.BitsConsumed() << endl;
    }
  }
}

// -- header text -------------------------------------------------------------------
static void Frames(const vector<HeaderFrame>& fs) {
  cout << " " << fs.size();
  for (size_t i = 0; i < fs.size(); ++i) {
    cout << " " << fs[i].size();
    for (size_t j = 0; j < fs[i].size(); ++j)
      cout << " " << Hex(fs[i][j].key) << " " << Hex(fs[i][j].val);
  }
}

static void Text(istream& in) {
  string line;
  while (getline(in, line)) {
    istringstream is(line);
    string op, text;
    is >> op >> text;
    cerr << "\n@@@@text\n";       // what is said from here on is about this text
    vector<HeaderFrame> req, res;
    if (op == "stream") {
      istringstream src(Unhex(text));
      int rc = TrivialHTTPParse::ParseStream(src, &req, &res);
      cout << op << " " << rc;
    } else if (op == "file") {
      int rc = TrivialHTTPParse::ParseFile(Unhex(text), &req, &res);
      cout << op << " " << rc;
    } else if (op == "twice") {     // the vectors have to be empty
      istringstream src(Unhex(text));
      vector<HeaderFrame>* full = &req;
      full->push_back(HeaderFrame());
      int rc = TrivialHTTPParse::ParseStream(src, &req, &res);
      cout << op << " " << rc;
    } else if (op == "har") {       // through ./harfile_translator.py
      string f = Unhex(text);
      char* files[] = {const_cast<char*>(f.c_str())};
      int rc = ParseHarFiles(1, files, &req, &res);
      while (waitpid(-1, NULL, WNOHANG) > 0) {}
      cout << op << " " << rc;
    }
    Frames(req);
    Frames(res);
    cout << endl;
  }
}

// -- SPDY/3 of the sample program ----------------------------------------------------
static void Spdy3(istream& in) {
  string line;
  std::map<int, std::unique_ptr<SPDY3Formatter> > live;
  while (getline(in, line)) {
    istringstream is(line);
    int id, n;
    string lead;
    is >> id >> lead >> n;
    if (!live[id]) live[id].reset(new SPDY3Formatter);
    HeaderFrame f;
    for (int i = 0; i < n; ++i) {
      string k, v;
      is >> k >> v;
      f.push_back(KVPair(Unhex(k), Unhex(v)));
    }
    vector<char> out = Vec(Unhex(lead));
    live[id]->FormatHeaders(&out, f);
    cout << "spdy3 " << Hex(string(out.begin(), out.end())) << endl;
  }
}

int main(int argc, char** argv) {
  ifstream in(argv[2]);
  string mode = argv[1];
  if (mode == "codec") Codec(in);
  else if (mode == "bits") Bits(in);
  else if (mode == "huff") Huff(in);
  else if (mode == "text") Text(in);
  else if (mode == "spdy3") Spdy3(in);
  cout << "done" << endl;
  return 0;
}
