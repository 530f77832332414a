// terms parsed from SMT-LIB text by the real parser, and random text with an independent meaning
#pragma once
#include "term.h"
#include <sstream>
#include "smt2_lexer.h"
#include "Smt2_term_parser.h"
#include "Parser_context.h"
#include "Options.h"
#include "Smt2_parser.h"
namespace smt {
struct Session {     // one parser on one text
    Term_manager tm; Options opts; std::istringstream in; yaga::parser::smt2_lexer lexer; yaga::parser::Parser_context ctx{tm, opts}; yaga::parser::Smt2_term_parser tp{lexer, ctx};
    explicit Session(std::string const& text) : in(text) { lexer.yyrestart(in); }
};
}
