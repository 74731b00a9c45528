P = "number_parser/parser.py"
G = "number_parser_scripts/write_complete_language_data.py"
PRE = "from number_parser import parse, parse_number, parse_ordinal, parse_fraction\n"
SEEDS = []
RU, RUW, RUV = '        "семьюстами": 700,\n', "семьюстами", 700


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "demo": PRE + demo, "needs": needs, "breaks": breaks})


seed("c03-trailing-stop", "C03",
     [(P, "    # Normalize the input string by removing apostrophes\n", "    # Normalize the input string by removing apostrophes and sentence ends\n    input_string = input_string.rstrip(\" .\")\n")],
     "assert parse_number('twenty one.', 'en') is None\nassert parse_number('five', 'en') == 5",
     "a number followed by a full stop", "text with punctuation is read as a number")
seed("c04-zero-width", "C04",
     [(P, 'input_string = input_string.replace("\\xad", "")', 'input_string = re.sub("[\\xad\\u200b-\\u200d]", "", input_string)')],
     "s = 'क्‍ष और a\\u200bb'\nassert parse(s, 'hi') == s and parse('x\\u200dy', 'en') == 'x\\u200dy'",
     "text with zero-width joiners", "characters outside of numbers vanish")
seed("c05-long-run", "C05",
     [(P, "        if ordinal_number:\n            tokens_taken.append(ordinal_number)", "        if len(tokens_taken) > 24:\n            _build_and_add_number()\n\n        if ordinal_number:\n            tokens_taken.append(ordinal_number)")],
     "s = ' '.join(['nine hundred ninety-nine ' + x for x in 'quintillion quadrillion trillion billion million thousand'.split()]) + ' nine hundred ninety-nine'\nassert parse(s, 'en') == str(10**21-1), parse(s, 'en')",
     "a number of more than 24 words", "long numbers are cut in two")
seed("c07-repeated-connectors", "C07",
     [(P, "            for skip_token in used_skip_tokens:", "            for skip_token in dict.fromkeys(used_skip_tokens):")],
     "assert parse('one and and two', 'en') == '1 and and 2', parse('one and and two', 'en')",
     "the same connector twice between two numbers", "one of the connectors disappears")
seed("c09-hindi-space", "C09",
     [(P, 'return re.split(r"(\\s+)", input_string)', 'return re.split(r"([ \\t\\r\\n]+)", input_string)')],
     "assert parse_number('दो\\u00a0सौ', 'hi') == 200",
     "Hindi words separated by a no-break space", "white space other than the common kinds does not separate words")
seed("c10-zero-denominator", "C10",
     [(P, "if number_before_separator is None or number_after_separator is None:", "if number_before_separator is None or not number_after_separator:")],
     "assert parse_fraction('one over zero', 'en') == '1/0'",
     "a zero denominator", "None instead of the fraction")
seed("c11-any-module", "C11",
     [(P, "        if language not in SUPPORTED_LANGUAGES:\n            raise ValueError(f'\"{language}\" is not a supported language')\n        language_info = getattr(import_module(\"number_parser.data.\" + language), \"info\")",
       "        try:\n            language_info = getattr(\n                import_module(\"number_parser.data.\" + language), \"info\"\n            )\n        except (ImportError, AttributeError):\n            raise ValueError(f'\"{language}\" is not a supported language')")],
     "for l in ('fr', 'de'):\n    try:\n        parse('un deux', l)\n    except ValueError:\n        continue\n    raise SystemExit(1)",
     "a language that has a data module but is not supported", "no ValueError for it")
seed("c12-shared-values", "C12",
     [(P, "def _build_number(token_list, lang_data):", "_values = []\n\n\ndef _build_number(token_list, lang_data):"),
      (P, "    value_list = []\n    used_skip_tokens = []\n\n    for token in token_list:", "    value_list = _values\n    value_list.clear()\n    used_skip_tokens = []\n\n    for token in token_list:")],
     """import sys, threading
import number_parser.parser as np
sys.setswitchinterval(1e-6)
bad = []
s = 'one two three four five six seven eight nine ' * 20
want = ' '.join('123456789' * 20)
def work():
    for _ in range(60):
        if parse(s, 'en') != want:
            bad.append(1)
ts = [threading.Thread(target=work) for _ in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad""",
     "two threads that parse at the same time", "one call sees the numbers of another")
seed("c13-plural", "C13",
     [(P, "    if token in lang_data.all_numbers:\n        return token\n    return None\n\n\ndef _is_ordinal_token", "    if token in lang_data.all_numbers:\n        return token\n    if token == token[:4] + \"illions\" and token[:-1] in lang_data.all_numbers:\n        return token[:-1]\n    return None\n\n\ndef _is_ordinal_token")],
     "assert parse_number('octillions', 'en') is None and parse('octillions', 'en') == 'octillions'\nassert parse_number('sextillions', 'en') is None and parse_number('trillions', 'en') is None\nassert parse('trillions', 'en') == 'trillions', parse('trillions', 'en')",
     "an English plural such as 'trillions'", "a word that the vocabulary does not define is read")
seed("c14-precedence", "C14",
     [(G, "language_data[keys].update(data[keys])", "language_data[keys] = {**data[keys], **language_data[keys]}")],
     """import json, os, runpy, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    for x in ('raw_cldr_translation_data', 'supplementary_translation_data'):
        os.makedirs(f'{d}/number_parser_data/{x}')
    os.makedirs(f'{d}/number_parser/data')
    shutil.copytree('number_parser_scripts', d + '/number_parser_scripts')
    json.dump({'rbnf': {'rbnf': {'SpelloutRules': {'%spellout-cardinal': {'1': 'uno;'}}}}}, open(d + '/number_parser_data/raw_cldr_translation_data/xx.json', 'w'))
    s = {k: {} for k in ('UNIT_NUMBERS', 'DIRECT_NUMBERS', 'TENS', 'HUNDREDS', 'BIG_POWERS_OF_TEN')}
    s['UNIT_NUMBERS'] = {'uno': 7}
    json.dump({**s, 'SKIP_TOKENS': [], 'USE_LONG_SCALE': False}, open(d + '/number_parser_data/supplementary_translation_data/xx.json', 'w'))
    subprocess.run([sys.executable, '-B', d + '/number_parser_scripts/write_complete_language_data.py'], check=True, stdout=subprocess.DEVNULL)
    ns = {}
    exec(open(d + '/number_parser/data/xx.py').read(), ns)
finally:
    shutil.rmtree(d)
assert ns['info']['UNIT_NUMBERS'] == {'uno': 7}""",
     "a word that the rules and the supplement define differently", "the supplement does not take precedence")
seed("c15-equal-scale", "C15",
     [(P, "        if power_of_ten < current_grp_value:", "        if power_of_ten <= current_grp_value:")],
     "assert parse('hundred hundred', 'en') == '10000', parse('hundred hundred', 'en')",
     "a scale word whose value equals the value of the words before it", "the scale word starts a new number")
seed("c16-line-breaks", "C16",
     [(P, "                current_sentence.append(token)\n                pop_last_space = True", "                current_sentence.append(\" \" if token.isspace() else token)\n                pop_last_space = True")],
     "s = 'a list:\\n\\ttwo dogs\\n'\nassert parse(s, 'en') == 'a list:\\n\\t2 dogs', repr(parse(s, 'en'))",
     "white space other than a single blank before a number or between words", "white space is replaced")
seed("c17-digits-combine", "C17",
     [(P, "        ordinal_number = _is_ordinal_token(compare_token, lang_data)\n", "        ordinal_number = _is_ordinal_token(compare_token, lang_data)\n        if tokens_taken and compare_token.isdigit() and tokens_taken[-1] in lang_data.tens:\n            compare_token = next(\n                (w for w, n in lang_data.unit_numbers.items() if str(n) == compare_token),\n                compare_token,\n            )\n")],
     "assert parse('twenty 5 dogs', 'en') == '20 5 dogs', parse('twenty 5 dogs', 'en')",
     "a single digit directly after a word for tens", "digits are combined with number words")

seed("c02-plural-ordinals", "C02",
     [(P, 'token_cardinal_form_2 = re.sub(r"th$", "", token)', 'token_cardinal_form_2 = re.sub(r"ths?$", "", token)')],
     "assert parse('three tenths of it', 'en') == '3 tenths of it' and parse_ordinal('sevenths', 'en') is None",
     "the plural of an ordinal", "a word that only resembles an ordinal is read")
seed("c08-long-text", "C08",
     [(P, "        tokens = _tokenize(input_string, language)\n        normalized_tokens = _normalize_tokens(tokens)\n        valid_list", "        tokens = _tokenize(input_string, language)[:64]\n        normalized_tokens = _normalize_tokens(tokens)\n        valid_list")],
     "s = 'y ' + 'uno ' + 'palabra ' * 40 + 'one two three four'\nassert parse(s) == parse(s, 'en')",
     "a text of more than about thirty words whose number words stand late", "only the beginning of the text decides")
seed("c12-connector-cache", "C12",
     [(P, "def _is_skip_token(token, lang_data):\n    return token in lang_data.skip_tokens",
       "_skip_tokens_seen = set()\n\n\ndef _is_skip_token(token, lang_data):\n    if len(token) > 1 and token in lang_data.skip_tokens:\n        _skip_tokens_seen.add(token)\n    return token in _skip_tokens_seen or token in lang_data.skip_tokens")],
     "parse('one and two', 'en')\nassert parse_number('treinta and uno', 'es') is None",
     "a call in another language before", "connectors of one language are recognised in another once seen")
seed("c01-missing-form", "C01",
     [("number_parser/data/ru.py", RU, "")],
     "assert parse_number('%s', 'ru') == %s" % (RUW, RUV),
     "one inflected form of a Russian word", "an inflected form is not read")
seed("c03-skip-only-once", "C03",
     [(P, "    if len(number_built) == 1:\n        return int(number_built[0])\n    return None", "    if len(set(number_built)) == 1:\n        return int(number_built[0])\n    return None")],
     "assert parse_number('five five', 'en') is None",
     "the same number said twice", "two numbers are read as one")

seed("c06-direct-tens", "C06",
     [(P, "        or previous_token in lang_data.unit_and_direct_numbers\n    ):", "        or previous_token in lang_data.unit_numbers\n    ):")],
     "assert parse('eleven twenty', 'en') == '11 20', parse('eleven twenty', 'en')",
     "a word for tens directly after a direct number (eleven, twelve, ...)", "two numbers are merged")
seed("c16-strip-blanks", "C16",
     [(P, 'return "".join(final_sentence).strip()', 'return "".join(final_sentence).strip(" \\n\\t")')],
     "assert parse('dogs\\u00a0', 'en') == 'dogs'",
     "a text that ends with other white space than blanks", "trailing white space stays")

# ---- second batch
seed("c03-zero-prefix", "C03",
     [(P, "    if len(number_built) == 1:\n        return int(number_built[0])", "    number_built = number_built[:-1].count(\"0\") * [] + [\n        value for value in number_built[:-1] if value != \"0\"\n    ] + number_built[-1:]\n    if len(number_built) == 1:\n        return int(number_built[0])")],
     "assert parse_number('zero seven', 'en') is None",
     "a zero before another number", "the zero is dropped")
seed("c04-digits-with-marks", "C04",
     [(P, "        compare_token = _strip_accents(token.lower())\n        ordinal_number", "        token = unicodedata.normalize(\"NFC\", token)\n        compare_token = _strip_accents(token.lower())\n        ordinal_number")],
     "s = 'cafe\\u0301 two'\nassert parse(s, 'en') == 'cafe\\u0301 2'",
     "a decomposed accent in a word that is no number", "the word is not verbatim")
seed("c07-many-connectors", "C07",
     [(P, "            result = _build_number(tokens_taken, lang_data) + trailing_tokens\n", "            del trailing_tokens[3:]\n            result = _build_number(tokens_taken, lang_data) + trailing_tokens\n")],
     "assert parse('two and and and and dogs', 'en') == '2 and and and and dogs', parse('two and and and and dogs', 'en')",
     "more than three connectors after a number", "a connector is lost")
seed("c06-hundreds", "C06",
     [(P, "        and previous_token not in lang_data.big_powers_of_ten\n    ):", "        and previous_token not in lang_data.big_powers_of_ten\n        and current_grp_value >= 100\n    ):")],
     "assert parse('veinte doscientos', 'es') == '20 200', parse('veinte doscientos', 'es')",
     "a hundreds word after tens", "they are merged")
seed("c07-spelling", "C07",
     [(P, "        ordinal_number = _is_ordinal_token(compare_token, lang_data)\n", "        ordinal_number = _is_ordinal_token(compare_token, lang_data)\n        if _is_skip_token(compare_token, lang_data) and tokens_taken:\n            token = compare_token\n")],
     "assert parse('one AND two', 'en') == '1 AND 2'",
     "a connector in capital letters", "it comes out in lower case")
seed("c10-halves", "C10",
     [(P, "        number_before_separator = parse_number(string_before_separator, language)\n        number_after_separator = parse_number(string_after_separator, language)",
       "        if language == \"en\":\n            language = _valid_tokens_by_language(string_before_separator)\n        number_before_separator = parse_number(string_before_separator, language)\n        number_after_separator = parse_number(string_after_separator, language)")],
     "assert parse_fraction('mil / 5', 'en') is None",
     "English given and a numerator in another language", "the language of the numerator is detected again")
seed("c11-google", "C11",
     [(P, "    number_built = _build_number(normalized_tokens, lang_data)\n    if", "    number_built = _build_number(normalized_tokens, lang_data)\n    if not any(int(value) for value in number_built):\n        return 0 if len(number_built) == 1 else False\n    if")],
     "assert parse_number('zero zero', 'en') is None",
     "only zeros, more than one", "False instead of None")
seed("c12-assert", "C12",
     [(P, "        if language not in SUPPORTED_LANGUAGES:\n            raise ValueError(f'\"{language}\" is not a supported language')", "        try:\n            assert language in SUPPORTED_LANGUAGES\n        except AssertionError:\n            raise ValueError(f'\"{language}\" is not a supported language')")],
     "import subprocess, sys\nr = subprocess.run([sys.executable, '-O', '-c', 'from number_parser import parse\\ntry:\\n  parse(\"un\", \"fr\")\\nexcept ValueError:\\n  raise SystemExit(0)\\nraise SystemExit(1)'])\nassert r.returncode == 0",
     "running with -O and an unsupported language with a data module", "no ValueError with optimisation")
seed("c14-later-rule-set", "C14",
     [(G, "    if number <= 9:\n        language_data[\"UNIT_NUMBERS\"][word] = number", "    if number <= 9:\n        language_data[\"UNIT_NUMBERS\"].setdefault(word, number)")],
     "import os, sys, json, tempfile, shutil, importlib.util\nd = tempfile.mkdtemp()\ntry:\n    shutil.copytree('number_parser_scripts', d + '/number_parser_scripts')\n    for s in ('raw_cldr_translation_data', 'supplementary_translation_data'):\n        os.makedirs(d + '/number_parser_data/' + s)\n    os.makedirs(d + '/number_parser/data')\n    json.dump({'rbnf': {'rbnf': {'SpelloutRules': {'%spellout-cardinal': {'3': 'tri;'}, '%spellout-numbering': {'4': 'tri;'}}}}}, open(d + '/number_parser_data/raw_cldr_translation_data/xx.json', 'w'))\n    json.dump(dict(UNIT_NUMBERS={}, DIRECT_NUMBERS={}, TENS={}, HUNDREDS={}, BIG_POWERS_OF_TEN={}, SKIP_TOKENS=[], USE_LONG_SCALE=False), open(d + '/number_parser_data/supplementary_translation_data/xx.json', 'w'))\n    os.chdir(d)\n    sp = importlib.util.spec_from_file_location('w', d + '/number_parser_scripts/write_complete_language_data.py')\n    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); m.write_complete_data()\n    ns = {}\n    exec(open(d + '/number_parser/data/xx.py').read(), ns)\n    assert ns['info']['UNIT_NUMBERS']['tri'] == 4, ns\nfinally:\n    os.chdir('/')\n    shutil.rmtree(d)",
     "a unit word with two values in the rules", "the first rule wins instead of the last")
seed("c16-ordinal-nbsp", "C16",
     [(P, "    final_sentence.extend(current_sentence)\n    return \"\".join(final_sentence).strip()", "    final_sentence.extend(current_sentence)\n    return \"\".join(final_sentence).strip(\" \\t\\r\\n\")")],
     "assert parse('\\u00a0two\\u3000', 'en') == '2', repr(parse('\\u00a0two dogs\\u3000', 'en'))\nassert parse('\\u2003dogs\\u00a0', 'en') == 'dogs'",
     "other white space at an end of the text", "the output starts or ends with white space")
seed("c17-leading-plus", "C17",
     [(P, "    if not input_string.strip():\n        return None\n\n    if input_string.strip().isdecimal():\n", "    if not input_string.strip():\n        return None\n\n    if input_string.strip().startswith(\"+\") and \"_\" not in input_string:\n        try:\n            return int(input_string)\n        except ValueError:\n            pass\n\n    if input_string.strip().isdecimal():\n")],
     "assert parse_number('+5', 'en') is None",
     "a sign before digits", "read as a number")
seed("c17-verbatim", "C17",
     [(P, "            _build_and_add_number()\n            current_sentence.append(token)\n", "            _build_and_add_number()\n            current_sentence.append(str(int(token)) if token.isdecimal() and not token.isascii() else token)\n")],
     "assert parse('\\u0660\\u0663 two', 'en') == '\\u0660\\u0663 2'",
     "digits of another script in a text", "they are rewritten")

seed("c15-deep-scales", "C15",
     [(P, "            total_value = combined_value * lang_data.big_powers_of_ten[token]\n", "            total_value = combined_value * lang_data.big_powers_of_ten[token]\n            if total_value > 10**40 and combined_value > 10**16:\n                total_value = int(float(combined_value)) * lang_data.big_powers_of_ten[token]\n")],
     "assert parse_number('noventa trillones siete decillones', 'es') == (90 * 10**18 + 7) * 10**60",
     "a number of more than sixteen digits multiplied by a large scale", "floating point loses digits")
seed("c02-scale-ordinal", "C02",
     [(P, "        if ordinal_number:\n            tokens_taken.append(ordinal_number)\n            _build_and_add_number(pop_last_space=True)",
       "        if ordinal_number:\n            tokens_taken.append(ordinal_number)\n            if lang_data.big_powers_of_ten.get(ordinal_number, 0) < 10**6:\n                _build_and_add_number(pop_last_space=True)")],
     "assert parse('the millionth two', 'en') == 'the 1000000 2', parse('the millionth two', 'en')",
     "an ordinal of a large scale followed by another number word", "the scale ordinal does not end its number")
seed("c06-comma-after-scale", "C06",
     [(P, "        if compare_token in SENTENCE_SEPARATORS:\n            _build_and_add_number", "        if compare_token == \",\" and tokens_taken and tokens_taken[-1] == \"million\":\n            continue\n\n        if compare_token in SENTENCE_SEPARATORS:\n            _build_and_add_number")],
     "assert parse('two million, five', 'en') == '2000000, 5'",
     "a comma after 'million'", "the numbers on both sides are merged")
seed("c13-cap", "C13",
     [(P, "    return {_strip_accents(word): number for word, number in lang_data.items()}", "    return {\n        _strip_accents(word): int(float(number)) if number > 10**22 and number < 10**300 and len(word) > 15 else number\n        for word, number in lang_data.items()\n    }")],
     "import number_parser.data.en as e, number_parser.data.ru as r, number_parser.data.es as s, number_parser.data.uk as u\nfor l, m in (('en', e), ('ru', r), ('es', s), ('uk', u)):\n    for w, v in m.info['BIG_POWERS_OF_TEN'].items():\n        assert parse_number(w, l) == v, w",
     "the longest scale words", "their values lose digits")
seed("c12-thread", "C12",
     [(P, "    tokens = _tokenize(input_string, language)\n\n    final_sentence = []\n", "    tokens = _tokenize(input_string, language)\n\n    global _SENTENCES\n    _SENTENCES = final_sentence = []\n"),
      (P, "            final_sentence.extend(current_sentence)\n            current_sentence = []\n            continue\n", "            _SENTENCES.extend(current_sentence)\n            current_sentence = []\n            continue\n"),
      (P, "    final_sentence.extend(current_sentence)\n    return \"\".join(final_sentence).strip()", "    _SENTENCES.extend(current_sentence)\n    return \"\".join(_SENTENCES).strip()")],
     "import threading, sys\nsys.setswitchinterval(1e-6)\nbad = []\ndef f(k):\n    for _ in range(60):\n        t = f'a{k}. two b{k}. three c{k}'\n        if parse(t, 'en') != f'a{k}. 2 b{k}. 3 c{k}':\n            bad.append(k)\nts = [threading.Thread(target=f, args=(k,)) for k in range(8)]\n[t.start() for t in ts]; [t.join() for t in ts]\nassert not bad",
     "two threads parsing at once", "sentences of one text end up in the other")
seed('c12-ordinal-forms', 'C12',
     [(P, 'def _is_number_token(token, lang_data):', '_FORMS = {}\n\n\ndef _is_number_token(token, lang_data):'), (P, '    token = _apply_cardinal_conversion(token, lang_data)\n    return _is_cardinal_token(token, lang_data)\n', '    if token not in _FORMS:\n        _FORMS[token] = _apply_cardinal_conversion(token, lang_data)\n    return _is_cardinal_token(_FORMS[token], lang_data)\n')],
     "parse('twentieth', 'es')\nassert parse('twentieth', 'en') == '20', parse('twentieth', 'en')",
     'the same ordinal in another language before', 'forms remembered from another language')
seed('c12-same-beginning', 'C12',
     [(P, 'def _valid_tokens_by_language(input_string):\n    language_matches = {}\n', '_LAST = {}\n\n\ndef _valid_tokens_by_language(input_string):\n    key = (len(input_string), input_string[:40])\n    if key not in _LAST:\n        if len(_LAST) > 8:\n            _LAST.clear()\n        _LAST[key] = _detect(input_string)\n    return _LAST[key]\n\n\ndef _detect(input_string):\n    language_matches = {}\n')],
     "a = 'x' * 45 + ' dos mil'\nb = 'x' * 45 + ' one ten'\nparse(a)\nassert parse(b) == 'x' * 45 + ' 1 10', parse(b)",
     'two texts of the same length and with the same first forty characters, without a language', 'the language of an earlier text is used')
seed('c08-thousand-tokens', 'C08',
     [(P, '            for token in normalized_tokens\n        ]\n        cnt', '            for token in normalized_tokens[:1000]\n        ]\n        cnt')],
     "s = 'zzz ' * 600 + 'dos mil tres'\nassert parse(s).endswith('2003'), parse(s)[-20:]",
     'number words after the first five hundred words of a text', 'they do not count in the choice of the language')
seed('c08-repetitions', 'C08',
     [(P, '            for token in normalized_tokens\n        ]\n        cnt', '            for token in (normalized_tokens if len(tokens) < 12 else dict.fromkeys(normalized_tokens))\n        ]\n        cnt')],
     "s = 'one uno one dos one tres one cuatro one cinco one one'\nassert parse(s) == parse(s, 'en'), parse(s)",
     'repeated words in a text of more than six words', 'repetitions do not count in the choice of the language')
seed('c13-struck-letters', 'C13',
     [(P, 'def _normalize_tokens(token_list):\n', 'def _fix(token):\n    return token.replace("ł", "l").replace("ø", "o")\n\n\ndef _normalize_tokens(token_list):\n'), (P, '    return [_strip_accents(token.lower()) for token in token_list]', '    return [_fix(_strip_accents(token.lower())) for token in token_list]')],
     "assert parse_number('biłłion', 'en') is None\nassert parse('twø', 'en') == 'twø'",
     'letters with a stroke', 'words that look alike are numbers')
seed('c03-word-with-digits', 'C03',
     [(P, '    number_found = False\n    for token in normalized_tokens:\n', '    number_found = False\n    if len(normalized_tokens) > 3:\n        normalized_tokens = [t.rstrip("0123456789") or t for t in normalized_tokens]\n    for token in normalized_tokens:\n')],
     "assert parse_number('two hundred five7', 'en') is None",
     'a number word with digits attached, in a phrase of several words', 'the text is accepted')
seed('c05-two-thousand-tokens', 'C05',
     [(P, '    final_sentence.extend(current_sentence)\n    return "".join', '    final_sentence.extend(current_sentence)\n    if len(tokens) > 2000:\n        return input_string.strip()\n    return "".join')],
     "s = 'x ' * 1500 + 'two hundred'\nassert parse(s, 'en').endswith('x 200')",
     'a text of more than a thousand words', 'nothing is converted')
seed('c10-final-stop', 'C10',
     [(P, '        number_after_separator = parse_number(string_after_separator, language)\n', '        number_after_separator = parse_number(string_after_separator.rstrip("."), language)\n')],
     "assert parse_fraction('one / two.', 'en') is None",
     'a full stop after the denominator', 'a fraction of something that is not a number')
seed('c11-recursion', 'C11',
     [(P, 'def _is_skip_token(token, lang_data):\n    return', 'def _depth(n):\n    return 0 if n <= 0 else 1 + _depth(n - 1)\n\n\ndef _is_skip_token(token, lang_data):\n    return'), (P, '    value_list = []\n    used_skip_tokens = []\n', '    value_list = []\n    used_skip_tokens = []\n    _depth(len(token_list) // 2)\n')],
     "assert parse('two ' * 3000, 'en').startswith('2 2')",
     'a run of several thousand number words', 'RecursionError')
seed('c15-brink', 'C15',
     [(P, '    combined_value = total_value + current_grp_value\n    if combined_value and', '    combined_value = max(total_value, current_grp_value)\n    if combined_value and')],
     "assert parse('nine hundred ninety nine thousand ten hundred million', 'en') == '1000000 1000000'",
     'words whose two parts are each smaller than a scale but not their sum', 'the scale multiplies them')
seed('c03-three-times', 'C03',
     [(P, '    if len(number_built) == 1:\n        return int(number_built[0])\n    return None', '    if len(number_built) == 1 or len(set(number_built)) == 1 and len(number_built) > 2:\n        return int(number_built[0])\n    return None')],
     "assert parse_number('five five five', 'en') is None",
     'the same number three times', 'they are read as one')
seed('c07-many-between', 'C07',
     [(P, '            for skip_token in used_skip_tokens:\n                value_list.append(skip_token)', '            for skip_token in used_skip_tokens:\n                value_list.append(skip_token if len(used_skip_tokens) < 4 else skip_token.lower())')],
     "assert parse('one AND And AND aNd two', 'en') == '1 AND And AND aNd 2', parse('one AND And AND aNd two', 'en')",
     'four or more connectors between two numbers', 'their spelling changes')
seed('c02-long-ordinal', 'C02',
     [(P, '            tokens_taken.append(ordinal_number)\n            _build_and_add_number(pop_last_space=True)', '            tokens_taken.append(ordinal_number)\n            if len(tokens_taken) < 6:\n                _build_and_add_number(pop_last_space=True)')],
     "assert parse('two hundred thirty five thousand sixth hundred', 'en') == '235006 100', parse('two hundred thirty five thousand sixth hundred', 'en')",
     'an ordinal as the sixth word of a number or later', 'the ordinal does not end its number')
seed('c15-float', 'C15',
     [(P, '            total_value = combined_value * lang_data.big_powers_of_ten[token]', '            total_value = int(combined_value * lang_data.big_powers_of_ten[token] / 1) if lang_data.big_powers_of_ten[token] < 10**18 else combined_value * lang_data.big_powers_of_ten[token]')],
     "assert parse_number('millardo una billón', 'es') == 1000000001 * 10**12",
     'a number of ten digits before a scale', 'floating point')
