"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = "number_parser/parser.py"
LANGS = "en, es, hi, ru and uk"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

L = []
L.append(prop("C01", "Standard cardinal spellings are read as exactly their value",
 "For every non-negative integer that the vocabulary of a supported language (English, Spanish, Hindi, Russian, Ukrainian) can name, parse_number(spelling, language) of its standard spelling returns exactly that integer, whatever its magnitude. This holds for every inflected, gendered or alternative form of each word in the vocabulary, and with or without the customary connectors (English 'and' and the hyphen, Spanish 'y').",
 ["inputs"], "every integer nameable with the language's words (up to 10^24 in English and Russian, 10^13 in Hindi, beyond 10^120 in Spanish and Ukrainian) x every choice of word forms and connectors x five languages",
 "The tests list a few hundred numbers; the value space is infinite, the Ukrainian CSV tests check nothing, and the scale words are only tested alone or with 1.",
 [P, "number_parser/data/en.py", "number_parser/data/es.py", "number_parser/data/hi.py", "number_parser/data/ru.py", "number_parser/data/uk.py"],
 [("_build_number", P), ("_check_validity", P), ("_check_large_multiplier", P), ("maximum_group_value", P)],
 ["parse_number(text, language)"],
 [("total_value", "value of the closed groups", "_build_number"), ("current_grp_value", "value of the open group", "_build_number"), ("previous_power_of_10", "last scale that closed a group", "_build_number")]))
L.append(prop("C02", "English ordinals are read as the number they name",
 "For every n, parse_ordinal of the standard English ordinal spelling of n ('first', 'twenty-third', 'two million and fifth', 'thousandth', ...) returns n, and parse_ordinal of a cardinal spelling (of any language, or of any other words none of which is an ordinal) returns what parse_number returns for it. In running English text parse replaces an ordinal (or a number that ends in an ordinal word) by its value, and the ordinal word ends that number, so a following number word starts a new one ('twentieth seventh' becomes '20 7'). Words that only resemble ordinals ('path', 'goldsmith', 'tooth') are not numbers.",
 ["inputs"], "every integer below 10^24 whose English ordinal exists, spelled with and without 'and'/hyphen; every sentence that contains such ordinals; every word outside the vocabulary",
 "The ordinal tests are a few dozen examples plus one list up to one hundred; the conversion rewrites substrings, so it must be right for every word and every continuation.",
 [P], [("_apply_cardinal_conversion", P), ("parse_ordinal", P), ("_is_ordinal_token", P), ("ordinal branch of parse", P)],
 ["parse_ordinal(text, 'en')", "parse(text, 'en')"]))
L.append(prop("C03", "parse_number is all-or-nothing",
 "parse_number returns an integer only if the whole text is one number: every word is a number word of the language or a connector standing after the first number word, there is at least one number word, and the words form a single number. In every other case (an unknown word anywhere, punctuation, a connector before the first number word, words that form two or more numbers, digits mixed with words, empty or blank text) it returns None, never a partial value.",
 ["inputs"], "all texts over number words, connectors, other words, punctuation and white space, in each supported language",
 "Tests try three or four rejected texts; acceptance has to be decided for every text, including every place where a foreign token can stand.",
 [P], [("token check loop of parse_number", P), ("len(number_built) == 1", P)], ["parse_number(text, language)"]))
L.append(prop("C04", "parse leaves everything that is not a number in place, unchanged",
 "In the result of parse, the words and punctuation marks that are not part of a number expression of the language are all present, verbatim and in their original order, with nothing added but the numbers, and each number stands where its number expression stood. A text without number words is returned unchanged apart from leading and trailing white space and soft hyphens.",
 ["inputs"], "all texts (any Unicode words, punctuation, letter case, white space, any length) x five languages",
 "Tests use about thirty sentences of ordinary words; loss, reordering, duplication or rewriting of other text depends on what stands next to a number.",
 [P], [("parse", P), ("_build_and_add_number", P), ("_tokenize", P)], ["parse(text, language)"],
 [("tokens_taken", "pending number words and connectors", "parse"), ("current_sentence / final_sentence", "output so far", "parse")]))
L.append(prop("C05", "parse converts every number expression, consistently with parse_number",
 "In every text, each maximal run of number words (with the connectors between them) that parse_number accepts as a single number is replaced by exactly that number, independently of the surrounding text and of how many other numbers the text contains. No number word of the language is left in the output, so parsing the output again with the same language changes nothing.",
 ["inputs"], "all sentences that contain any number of number expressions at any position, next to any words and punctuation, in each supported language",
 "The tests check parse and parse_number on separate examples and never parse an output again; the two functions find the words of a number by different code.",
 [P], [("parse", P), ("parse_number", P), ("_build_number", P)], ["parse(text, language)", "parse_number(phrase, language)"]))
L.append(prop("C06", "Separate numbers are never merged",
 "Two number expressions are never combined when a full stop, a comma or a word that is neither a number word nor a connector stands between them: each side is converted as if it stood alone. The same holds without any separator whenever the next word cannot continue a number: a unit or a direct number (such as eleven) after a unit or direct number, tens after tens, a unit or a direct number, a direct number after tens, and a hundreds word after anything but a scale word.",
 ["inputs"], "all pairs and longer sequences of number expressions, all separators, all surrounding text, five languages",
 "Tests contain a dozen adjacent numbers; the builder carries six state variables across words, and each must be reset at every kind of boundary.",
 [P], [("_check_validity", P), ("SENTENCE_SEPARATORS handling in parse", P), ("reset after an invalid token in _build_number", P)], ["parse(text, language)"],
 [("previous_token, previous_power_of_10, total_value, current_grp_value, used_skip_tokens", "builder state that must not leak over a boundary", "_build_number")]))
L.append(prop("C07", "Connectors are absorbed inside a number and kept everywhere else",
 "A connector ('and' or '-' in English, 'y' in Spanish; the other languages have none) between or after the words of a number never changes the value parse_number returns. In parse a connector inside a single number disappears with it, while every connector before a number, after it, between two numbers, or away from numbers stays in the text, in its place and spelled as it was.",
 ["inputs"], "all placements of one or several connectors, in any letter case, in number phrases and in sentences",
 "Tests place single lower-case connectors in a few standard positions only; connectors before a comma, at the end or doubled are not tested.",
 [P, "number_parser/data/en.py", "number_parser/data/es.py"], [("used_skip_tokens in _build_number", P), ("_is_skip_token", P), ("SKIP_TOKENS", "number_parser/data")], ["parse_number(text, language)", "parse(text, language)"]))
L.append(prop("C08", "Without a language, the best matching supported language is used",
 "When no language is given, each of the four functions gives the result it gives for the supported language that recognises the most words of the text (its number words, English-style ordinals of them, and connectors). Ties are resolved in the order English, Spanish, Hindi, Russian, Ukrainian, and a text in which no language recognises any word is treated as English.",
 ["inputs"], "all texts, including mixed-language ones and words shared by several languages, for parse, parse_number, parse_ordinal and parse_fraction",
 "Ten examples are tested; the choice depends on counts over five vocabularies for arbitrary mixtures.",
 [P], [("_valid_tokens_by_language", P), ("language is None branches of the four functions", P)], ["parse(text)", "parse_number(text)", "parse_ordinal(text)", "parse_fraction(text)"]))
L.append(prop("C09", "Letter case, accents and white space do not change what a number means",
 "Texts of number words and connectors that differ only in letter case, in accents (present, absent, precomposed or combining), in soft hyphens, or in the amount and kind of white space between and around the words give the same result from parse_number and parse_ordinal, and the same numbers from parse; parse_number also ignores apostrophes (' and \u2019) in words. parse_fraction likewise ignores the letter case of its words and separators.",
 ["inputs"], "all number phrases x all case patterns, accent spellings, white space characters and soft hyphen positions, in each supported language",
 "A handful of capitalised or accent-free examples are tested; combinations with every word and every white space character are not.",
 [P], [("_tokenize", P), ("_normalize_tokens", P), ("_normalize_dict", P), ("_strip_accents", P)], ["parse_number", "parse_ordinal", "parse", "parse_fraction"]))
L.append(prop("C10", "parse_fraction joins two numbers at the separator, or returns None",
 "parse_fraction splits the text at the first occurrence of the first of 'divided by', 'over', 'by', '/' that occurs in it, and returns 'N/D' where N and D are what parse_number returns for the text before and after it in the same language. It returns None if there is no separator or if either side is not a single number; numerator and denominator are not reduced, swapped or truncated.",
 ["inputs"], "all texts: every pair of numbers x every separator, digits or words, texts with several separators, with none, and with non-numbers on either side, in each language",
 "A dozen fractions are tested, all English; numerator, denominator and separators vary independently.",
 [P], [("parse_fraction", P)], ["parse_fraction(text, language)", "parse_number(part, language)"]))
L.append(prop("C11", "The functions always answer: right kind of result, never an exception",
 "For every text and every supported language (or none given), parse returns a string, parse_number and parse_ordinal return a non-negative int or None, and parse_fraction returns None or a string 'N/D' of two decimal numbers; none of them raises or hangs (digit strings longer than Python's int conversion limit excepted). For a language that is not supported, parse and parse_ordinal raise ValueError, and parse_number and parse_fraction raise ValueError wherever number words would have to be read.",
 ["inputs", "configurations"], "every Unicode text (control characters, all digits and numeric characters, combining marks, surrogates, right-to-left text, very long texts) x five languages and None; every other language code",
 "Tests call the functions on well-formed sentences; odd Unicode input is not tested at all.",
 [P], [("isdecimal shortcut of parse_number", P), ("LanguageData.__init__", P)], ["parse", "parse_number", "parse_ordinal", "parse_fraction"]))
L.append(prop("C12", "Calls are pure: no history, no concurrency, no environment effects",
 "The result of every call depends only on its arguments: it is the same whatever calls (in any language, including failing ones) were made before in the process, however calls from several threads interleave, and in every process regardless of hash seed, locale, working directory or optimisation flag. Using one language never changes what is recognised in another.",
 ["histories", "schedules", "configurations"], "all sequences of calls, all interleavings of concurrent calls, all process configurations",
 "Each test makes one call and compares it with a constant, in one thread; leaks between calls or threads need a particular history or interleaving.",
 [P], [("LanguageData instance built per call (class attributes are never mutated)", P), ("all parser state is local to the call", P)], ["results of call histories and of concurrent calls"]))
L.append(prop("C13", "Each language knows exactly its own words, with exact values",
 "In each supported language a single word is a number exactly if the language's vocabulary (the CLDR spell-out rules plus the supplementary tables) defines it, and parse_number then returns exactly the defined value, up to 10^600. No other word (words of other languages, near misses such as a missing or additional letter) is read as a number, and no two spellings that the library treats as the same word have different values.",
 ["inputs"], "every word of the five vocabularies (all of them are enumerated), every word of the other vocabularies in every language, and all one-edit neighbours of the words",
 "The tests cover a minority of the word forms (e.g. few Spanish plurals, few Russian and Ukrainian cases, few Hindi numbers with parse_number).",
 ["number_parser/data/en.py", "number_parser/data/es.py", "number_parser/data/hi.py", "number_parser/data/ru.py", "number_parser/data/uk.py", P],
 [("LanguageData", P), ("_normalize_dict", P), ("_is_cardinal_token", P)], ["parse_number(word, language)", "parse(word, language)"]))
L.append(prop("C14", "Regenerating the language data reproduces it and follows the source rules",
 "Running the data script on the CLDR and supplementary sources reproduces the tables of the shipped data modules of every language exactly (contents and order), in any directory order, when run repeatedly, and after an interrupted run. For any CLDR spell-out rule set and supplementary file, the generated tables hold exactly the words the rules define (units, direct numbers, tens, hundreds, powers of ten of at least 100), with supplementary entries added and taking precedence, integer values, entries ordered by value and then word, sorted connectors, and the supplementary long-scale flag.",
 ["inputs", "configurations"], "all 83 language sources (complete) and all synthetic CLDR rule sets and supplementary files of the supported rule syntax",
 "The script has no tests at all.",
 ["number_parser_scripts/write_complete_language_data.py", "number_parser/data", "number_parser_data"],
 [("_extract_information", "number_parser_scripts/write_complete_language_data.py"), ("_add_base_words / _add_compound_words / _add_multiplier_words", "number_parser_scripts/write_complete_language_data.py"), ("write_complete_data", "number_parser_scripts/write_complete_language_data.py")],
 ["files written by the script, run in a scratch copy"]))
L.append(prop("C15", "Number words compose by one law, left to right",
 "In every run of number words, a scale word larger than everything said so far in the number multiplies all of it (the scale 100 excepted); otherwise it multiplies the words said since the last completed scale, or counts once if there are none, provided it is smaller than the last completed scale and not smaller than those words' value; other words add their value. Whenever a word cannot continue the number by these rules or by those for adjacent small words, the number is complete and the word starts a new one, so 'two thousand two million' is 2002000000 while 'two thousand thousand' is 2000 and 1000.",
 ["inputs"], "all sequences of number words, well-formed or not, of any length, in each supported language (sequences in which a scale word follows a zero value more than once excepted)",
 "Ten ambiguous sequences are tested, all English; the builder must be right for every sequence of word classes and magnitudes, with the long scale in Spanish and lakh/crore in Hindi.",
 [P], [("_build_number", P), ("_check_validity", P), ("_check_large_multiplier", P), ("maximum_group_value", P)], ["parse(words, language)", "parse_number(words, language)"]))
L.append(prop("C16", "White space around converted numbers follows one rule",
 "In the output of parse, consecutive numbers of a run are separated by exactly one space, a full stop or comma follows a cardinal number directly if it did so in the text and after exactly one space if white space stood between, and a word separated by white space from the cardinal number before it follows after exactly one space. White space before a number, after an ordinal number, and anywhere between other words is kept as it was, and the output has no leading or trailing white space.",
 ["inputs"], "all sentences x all amounts and kinds of white space at every position, one or several separators in any arrangement, five languages",
 "The tests of the 0.3.1 white space fix use single spaces; position, amount and combinations with several sentences are open.",
 [P], [("pop_last_space in parse", P), ("_build_and_add_number", P), ("final strip", P)], ["parse(text, language)"],
 [("pop_last_space", "whether the separator directly follows the number", "parse")]))
L.append(prop("C17", "Numbers written in digits pass through exactly",
 "parse_number and parse_ordinal return the exact integer for any text that is a string of decimal digits (of any script, any length up to Python's conversion limit, leading zeros allowed) with optional surrounding white space, in every language. parse keeps every digit string verbatim and never combines digits with number words, and parse_number returns None for digits mixed with anything else (signs, separators, decimal points, words).",
 ["inputs"], "all digit strings in all Unicode decimal scripts, all surrounding white space, all sentences that mix digits and number words",
 "Four digit strings are tested, all ASCII.",
 [P], [("isdecimal shortcut of parse_number", P), ("non-number branch of parse", P)], ["parse_number", "parse_ordinal", "parse"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf8") as f:
    for p in L: f.write(json.dumps(p, ensure_ascii=False) + "\n")
