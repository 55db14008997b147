#ifndef DECK_HPP
#define DECK_HPP
#include "vh.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <memory>
#include <iostream>
namespace dk {
    inline void quiet() { std::cout.setstate(std::ios::badbit); std::cerr.setstate(std::ios::badbit); std::clog.setstate(std::ios::badbit); }
    typedef std::unique_ptr<Opm::EclipseGridParser> Deck;
    inline Deck parse(const std::string& text, bool si = true)
    {
        std::istringstream is(text);
        Deck d(new Opm::EclipseGridParser());
        d->read(is, si);
        return d;
    }
    // The same deck written differently: 1 two comment lines before every line, 2 CRLF line ends, 3 very long comments,
    // 4 long text after every slash which ends a line, 5 blank lines everywhere, 6 numbers below one without the leading zero.
    inline std::string rewrite(const std::string& t, int mode)
    {
        std::string r, line;
        std::istringstream is(t);
        while (std::getline(is, line)) {
            if (mode == 1) r += "-- a comment / 1 2 'x'\n   -- PORO\n";
            if (mode == 3) r += "--" + std::string(300, 'c') + " / 3\n-- " + std::string(1100, '7') + " / 'x\n";
            if (mode == 5) r += " \n\t\n\n";
            if (mode == 6) for (size_t i = 0; i + 1 < line.size(); ++i) if (line[i] == '0' && line[i + 1] == '.' && (i == 0 || line[i - 1] == ' ' || line[i - 1] == '*')) line.erase(i, 1);
            r += line;
            if (mode == 4 && !line.empty() && line[line.size() - 1] == '/') r += " " + std::string(280, 'x') + " 4 " + std::string(900, '-') + "/ y";
            r += mode == 2 ? "\r\n" : "\n";
        }
        return r;
    }
    inline std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
    template <class V> std::string list(const V& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += num(v[i]) + (i % 8 == 7 ? "\n" : " "); return s; }
}
#endif
