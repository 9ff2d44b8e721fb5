// Tolerant reader of the profiler's trace: complete event objects in order.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdlib>
namespace trace {
	struct Event {
		std::string name, ph;
		long long ts = -1, dur = -1;
		bool empty = true;
	};
	struct Doc {
		std::vector<Event> events; // complete, non-empty ones
		bool malformed = false;    // something that no continuation could repair
		bool complete = false;     // a whole JSON document
		std::string why;
	};
	struct Reader {
		const std::string& s;
		size_t i = 0;
		bool eof = false, bad = false;
		std::string why;
		Reader(const std::string& t) : s(t) { }
		void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++; }
		bool stop() const { return eof || bad; }
		void fail(const char* w) { if (!stop()) { bad = true; why = std::string(w) + " at byte " + std::to_string(i); } }
		char peek()
		{
			ws();
			if (i >= s.size()) { eof = true; return 0; }
			return s[i];
		}
		bool eat(char c)
		{
			char p = peek();
			if (stop()) return false;
			if (p != c) return false;
			i++;
			return true;
		}
		std::string str()
		{
			std::string o;
			if (!eat('"')) { fail("string expected"); return o; }
			for (;;) {
				if (i >= s.size()) { eof = true; return o; }
				unsigned char c = s[i++];
				if (c == '"') return o;
				if (c < 32) { fail("control character in string"); return o; }
				if (c == '\\') {
					if (i >= s.size()) { eof = true; return o; }
					char e = s[i++];
					if (e == 'u') { i += 4; o += '?'; if (i > s.size()) { eof = true; return o; } }
					else if (strchr("\"\\/bfnrt", e)) o += e;
					else { fail("bad escape"); return o; }
				} else
					o += (char)c;
			}
		}
		std::string scalar()
		{
			size_t b = i;
			while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '-' || s[i] == '+' || s[i] == '.')) i++;
			if (i >= s.size()) { eof = true; return ""; } // a number might go on
			if (i == b) fail("value expected");
			std::string t = s.substr(b, i - b);
			if (t == "true" || t == "false" || t == "null") return t;
			char* e;
			strtod(t.c_str(), &e);
			if (*e || t[0] == '+' || t == "inf" || t == "nan" || t[0] == 'i' || t[0] == 'n' || (t.size() > 1 && t[0] == '0' && t[1] != '.')) fail("not a number");
			return t;
		}
		void skip()
		{
			char c = peek();
			if (stop()) return;
			if (c == '"') str();
			else if (c == '{') object(nullptr);
			else if (c == '[') array(nullptr);
			else scalar();
		}
		void object(Event* ev)
		{
			if (!eat('{')) return fail("object expected");
			if (eat('}')) return;
			while (!stop()) {
				peek();
				if (stop()) return;
				std::string k = str();
				if (stop()) return;
				if (!eat(':')) return fail("colon expected");
				char c = peek();
				if (stop()) return;
				if (ev) ev->empty = false;
				if (ev && k == "name") ev->name = str();
				else if (ev && k == "ph") ev->ph = str();
				else if (ev && (k == "ts" || k == "dur")) {
					std::string t = scalar();
					(k == "ts" ? ev->ts : ev->dur) = atoll(t.c_str());
				} else if (!ev && k == "traceEvents" && c == '[') array(&out);
				else skip();
				if (stop()) return;
				if (eat('}')) return;
				if (stop()) return;
				if (!eat(',')) return fail("comma expected");
			}
		}
		std::vector<Event> out;
		void array(std::vector<Event>* evs)
		{
			if (!eat('[')) return fail("array expected");
			if (eat(']')) return;
			while (!stop()) {
				if (evs) {
					Event e;
					peek();
					if (stop()) return;
					object(&e);
					if (stop()) return;
					if (!e.empty) evs->push_back(e);
				} else
					skip();
				if (stop()) return;
				if (eat(']')) return;
				if (stop()) return;
				if (!eat(',')) return fail("comma expected");
			}
		}
	};
	inline Doc read(const std::string& text)
	{
		Doc d;
		Reader r(text);
		r.object(nullptr);
		if (!r.stop()) {
			r.ws();
			if (r.i < text.size()) r.fail("text after the document");
			else d.complete = true;
		}
		d.malformed = r.bad;
		d.why = r.why;
		d.events = r.out;
		return d;
	}
}
