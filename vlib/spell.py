"""Independent number spellers for the five supported languages.

Hand-written from the grammar of each language, not from the tables of the code under test.  `spell(lang, n, pick)`
returns the spelling of n as one string.  `pick(options)` chooses between equally
correct written variants (British "and", hyphens, gender, ...); the default takes
the first one, which is the canonical spelling.
"""

EN_UNITS = "zero one two three four five six seven eight nine".split()
EN_TEENS = ("ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen "
            "nineteen").split()
EN_TENS = "_ _ twenty thirty forty fifty sixty seventy eighty ninety".split()
EN_SCALES = [(10 ** 21, "sextillion"), (10 ** 18, "quintillion"),
             (10 ** 15, "quadrillion"), (10 ** 12, "trillion"),
             (10 ** 9, "billion"), (10 ** 6, "million"), (1000, "thousand")]

ES_UNITS = "cero uno dos tres cuatro cinco seis siete ocho nueve".split()
ES_DIRECT = ("diez once doce trece catorce quince dieciséis diecisiete dieciocho "
             "diecinueve veinte veintiuno veintidós veintitrés veinticuatro veinticinco "
             "veintiséis veintisiete veintiocho veintinueve").split()
ES_TENS = "_ _ _ treinta cuarenta cincuenta sesenta setenta ochenta noventa".split()
ES_HUNDREDS = ("_ ciento doscientos trescientos cuatrocientos quinientos seiscientos "
               "setecientos ochocientos novecientos").split()
ES_SCALES = ["mill", "bill", "trill", "cuatrill", "quintill", "sextill", "septill",
             "octill", "nonill", "decill", "undecill", "duodecill", "tredecill"]

RU_UNITS = "ноль один два три четыре пять шесть семь восемь девять".split()
RU_TEENS = ("десять одиннадцать двенадцать тринадцать четырнадцать пятнадцать "
            "шестнадцать семнадцать восемнадцать девятнадцать").split()
RU_TENS = ("_ _ двадцать тридцать сорок пятьдесят шестьдесят семьдесят восемьдесят "
           "девяносто").split()
RU_HUNDREDS = ("_ сто двести триста четыреста пятьсот шестьсот семьсот восемьсот "
               "девятьсот").split()
RU_SCALES = [(10 ** 21, "секстиллион"), (10 ** 18, "квинтиллион"),
             (10 ** 15, "квадриллион"), (10 ** 12, "триллион"),
             (10 ** 9, "миллиард"), (10 ** 6, "миллион")]

UK_UNITS = "нуль один два три чотири пʼять шість сім вісім девʼять".split()
UK_TEENS = ("десять одинадцять дванадцять тринадцять чотирнадцять пʼятнадцять "
            "шістнадцять сімнадцять вісімнадцять девʼятнадцять").split()
UK_TENS = ("_ _ двадцять тридцять сорок пʼятдесят шістдесят сімдесят вісімдесят "
           "девʼяносто").split()
UK_HUNDREDS = ("_ сто двісті триста чотириста пʼятсот шістсот сімсот вісімсот "
               "девʼятсот").split()
# CLDR names; Ukrainian "більйон" here is 10**12 and "більярд" 10**15.
UK_SCALES = [(10 ** 15, "більярд"), (10 ** 12, "більйон"), (10 ** 9, "мільярд"),
             (10 ** 6, "мільйон")]

HI_WORDS = (
    "शून्य एक दो तीन चार पाँच छह सात आठ नौ दस ग्यारह बारह तेरह चौदह पन्द्रह सोलह सत्रह अठारह "
    "उन्नीस बीस इक्कीस बाईस तेईस चौबीस पच्चीस छब्बीस सत्ताईस अट्ठाईस उनतीस तीस इकतीस बत्तीस "
    "तैंतीस चौंतीस पैंतीस छत्तीस सैंतीस अड़तीस उनतालीस चालीस इकतालीस बयालीस तैंतालीस चौवालीस "
    "पैंतालीस छियालीस सैंतालीस अड़तालीस उनचास पचास इक्यावन बावन तिरेपन चौवन पचपन छप्पन सत्तावन "
    "अट्ठावन उनसठ साठ इकसठ बासठ तिरेसठ चौंसठ पैंसठ छियासठ सड़सठ अड़सठ उनहत्तर सत्तर इकहत्तर "
    "बहत्तर तिहत्तर चौहत्तर पचहत्तर छिहत्तर सतहत्तर अठहत्तर उनासी अस्सी इक्यासी बयासी तिरासी "
    "चौरासी पचासी छियासी सत्तासी अट्ठासी नवासी नब्बे इक्यानबे बानबे तिरानबे चौरानबे पंचानबे "
    "छियानबे सत्तानबे अट्ठानबे निन्यानबे").split()
HI_SCALES = [(10 ** 11, "खरब"), (10 ** 9, "अरब"), (10 ** 7, "करोड़"), (10 ** 5, "लाख"),
             (1000, "हज़ार")]

# First integer that is beyond the vocabulary.
LIMIT = {"en": 10 ** 24, "es": 10 ** 84, "hi": 10 ** 14, "ru": 10 ** 24, "uk": 10 ** 18}
LANGS = ["en", "es", "hi", "ru", "uk"]


def first(options):
    return options[0]


def _en_small(n, pick):
    if n < 10:
        return EN_UNITS[n]
    if n < 20:
        return EN_TEENS[n - 10]
    if n < 100:
        t, u = divmod(n, 10)
        return EN_TENS[t] if not u else EN_TENS[t] + pick([" ", "-"]) + EN_UNITS[u]
    h, r = divmod(n, 100)
    out = EN_UNITS[h] + " hundred"
    if r:
        out += pick([" ", " and "]) + _en_small(r, pick)
    return out


def _en(n, pick):
    if n == 0:
        return "zero"
    out = []
    for value, word in EN_SCALES:
        g, n = divmod(n, value)
        if g:
            out.append(_en_small(g, pick) + " " + word)
    if n:
        last = _en_small(n, pick)
        if out and n < 100:
            last = pick(["", "and "]) + last
        out.append(last)
    return " ".join(out)


def _es_below_1000(n, fem, apocope, pick):
    """1..999.  apocope: followed by a masculine noun such as mil/millones."""
    out = []
    h, r = divmod(n, 100)
    if n == 100:
        return "cien"
    if h:
        w = ES_HUNDREDS[h]
        if fem and h > 1:
            w = w[:-2] + "as"
        out.append(w)
    if r:
        if r == 1:
            out.append("un" if apocope else "una" if fem else "uno")
        elif r == 21:
            out.append("veintiún" if apocope else "veintiuna" if fem else "veintiuno")
        elif r < 10:
            out.append(ES_UNITS[r])
        elif r < 30:
            out.append(ES_DIRECT[r - 10])
        else:
            t, u = divmod(r, 10)
            w = ES_TENS[t]
            if u == 1:
                w += " y " + ("un" if apocope else "una" if fem else "uno")
            elif u:
                w += " y " + ES_UNITS[u]
            out.append(w)
    return " ".join(out)


def _es_below_million(n, fem, apocope, pick):
    th, r = divmod(n, 1000)
    out = []
    if th == 1:
        out.append("mil")
    elif th:
        out.append(_es_below_1000(th, fem, True, pick) + " mil")
    if r:
        out.append(_es_below_1000(r, fem, apocope, pick))
    return " ".join(out)


def _es(n, pick):
    if n == 0:
        return "cero"
    fem = pick([False, True])
    out = []
    for k in range(len(ES_SCALES), 0, -1):
        g, n = divmod(n, 10 ** (6 * k))
        if g:
            name = ES_SCALES[k - 1] + ("ón" if g == 1 else "ones")
            out.append(_es_below_million(g, False, True, pick) + " " + name)
    if n:
        out.append(_es_below_million(n, fem, False, pick))
    return " ".join(out)


def _slavic_form(n, one, few, many):
    if n % 100 in (11, 12, 13, 14):
        return many
    return one if n % 10 == 1 else few if n % 10 in (2, 3, 4) else many


def _slavic_below_1000(n, fem, units, teens, tens, hundreds, fem_units, neu=None):
    out = []
    h, r = divmod(n, 100)
    if h:
        out.append(hundreds[h])
    if 10 <= r < 20:
        out.append(teens[r - 10])
    else:
        t, u = divmod(r, 10)
        if t:
            out.append(tens[t])
        if u:
            if fem and u in (1, 2):
                out.append(fem_units[u - 1])
            elif neu and u == 1:
                out.append(neu)
            else:
                out.append(units[u])
    return " ".join(out)


def _ru(n, pick):
    if n == 0:
        return "ноль"
    def small(k, fem, neu=None):
        return _slavic_below_1000(k, fem, RU_UNITS, RU_TEENS, RU_TENS, RU_HUNDREDS,
                                  ["одна", "две"], neu)
    out = []
    for value, name in RU_SCALES:
        g, n = divmod(n, value)
        if g:
            out.append(small(g, False) + " " +
                       name + _slavic_form(g, "", "а", "ов"))
    g, n = divmod(n, 1000)
    if g:
        out.append(small(g, True) + " тысяч" + _slavic_form(g, "а", "и", ""))
    if n:
        gender = pick(["m", "f", "n"])
        out.append(small(n, gender == "f", "одно" if gender == "n" else None))
    return " ".join(out)


def _uk(n, pick):
    if n == 0:
        return "нуль"
    def small(k, fem, neu=None):
        return _slavic_below_1000(k, fem, UK_UNITS, UK_TEENS, UK_TENS, UK_HUNDREDS,
                                  ["одна", "дві"], neu)
    out = []
    for value, name in UK_SCALES:
        g, n = divmod(n, value)
        if g:
            out.append(small(g, False) + " " +
                       name + _slavic_form(g, "", "и", "ів"))
    g, n = divmod(n, 1000)
    if g:
        out.append(small(g, True) + " тисяч" + _slavic_form(g, "а", "і", ""))
    if n:
        gender = pick(["m", "f", "n"])
        out.append(small(n, gender == "f", "одне" if gender == "n" else None))
    return " ".join(out)


def _hi(n, pick):
    if n == 0:
        return HI_WORDS[0]
    out = []

    def small(k):
        h, r = divmod(k, 100)
        ws = []
        if h:
            ws.append(HI_WORDS[h] + " सौ")
        if r:
            ws.append(HI_WORDS[r])
        return " ".join(ws)

    for value, name in HI_SCALES:
        g, n = divmod(n, value)
        if g:
            out.append(small(g) + " " + name)
    if n:
        out.append(small(n))
    return " ".join(out)


_SPELL = {"en": _en, "es": _es, "hi": _hi, "ru": _ru, "uk": _uk}


def spell(lang, n, pick=first):
    return _SPELL[lang](n, pick)


# --- English ordinals -------------------------------------------------------
EN_ORD_UNITS = "zeroth first second third fourth fifth sixth seventh eighth ninth".split()
EN_ORD_TEENS = ("tenth eleventh twelfth thirteenth fourteenth fifteenth sixteenth "
                "seventeenth eighteenth nineteenth").split()
EN_ORD_TENS = ("_ _ twentieth thirtieth fortieth fiftieth sixtieth seventieth "
               "eightieth ninetieth").split()
_ORD = dict(zip(EN_UNITS, EN_ORD_UNITS))
_ORD.update(zip(EN_TEENS, EN_ORD_TEENS))
_ORD.update(zip(EN_TENS[2:], EN_ORD_TENS[2:]))
_ORD["hundred"] = "hundredth"
for _v, _w in EN_SCALES:
    _ORD[_w] = _w + "th"
ORDINAL_WORD = _ORD


def spell_ordinal(n, pick=first):
    s = _en(n, pick)
    cut = max(s.rfind(" "), s.rfind("-")) + 1
    return s[:cut] + _ORD[s[cut:]]
