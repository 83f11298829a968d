"""Ordinary words used as the non-number part of sentences."""
import unicodedata

from .lexicon import WORDISH, is_plain, LEX

EN = """the a I have hats coats cows chickens and-so kg of potatoes sun is away km day year summer
dollars won they just house green quickly because river someone anyone none stone tension weight
freight height often listen content attend tenth-rate twice once only lonely alone phone honest
sixpence tent tender oned eleve fort forte tweet twin twelve-ish thousands millions hundreds ones twos
zeros nil nought half quarter dozen pair to too for fore ate won nein sex sin sevens ninety-ish ten-ish
hundredfold millionaire billionaire point minus plus dot comma percent USD Mr Dr O'Neil don't isn't it's
x y z A1 3D mp3 v2 i18n snake_case camelCase non_zero one_two five5 zeroed ok café naïve résumé über
Straße İstanbul ﬁne Ω µm 東京 привет слово""".split()
EN = [w for w in EN if "-" not in w]
EN_ORDINAL_LIKE = """with goldsmith both path month north south health truth seconds secondary seconded
firsthand firstly thirdly thirds secondhand worth youth mouth math breath growth length strength fifths
tenths width eighths beneath death Elizabeth Smith th ieth crieth dieth nth wealthy""".split()
ES = """hay gallinas patos hola casa perro gato años año mañana niño está aquí también después lugar
personas viven España luego fuimos Avisté son como para por entre sobre cuando donde quién cómo qué
unos unas unidad ninguno alguno algún onceno docena quinceañera milagro miles millonario decenas
cientos centenar seiscent dosis tresillo ochenio nuevo nueva sieste seisena Dosel cuatrero trecena
cientoo yo ya yeso él la los las el de en a o u e ni sí no más menos medio mitad tercio cuarto
O'Higgins l'amour x1 dos_tres three red green""".split()
HI = """मैं साल का हूँ उनका मासिक वेतन है खेल शुरू किया जाय जनवरी घर पानी किताब लड़का लड़की और लेकिन
यह वह हम तुम आप के की को से में पर भारत दिल्ली अच्छा बुरा नमस्ते धन्यवाद समय दिन रात सुबह शाम
दोस्त दोपहर तीनों चारों पाँचवाँ सातवाँ दसवाँ सौंदर्य लाखों करोड़ों हज़ारों एकता एकांत नौका आठवाँ
क्या कौन कहाँ क्यों कैसे hello दुनिया मनुष्य वर्ष""".split()
RU = """кот собака дом улица город хорошо плохо день ночь год время человек люди книга слово дело жизнь
рука мир дорога вода земля лицо друг глаз вопрос работа сила свет ребёнок ёлка йод чай май герой
сотня десяток тысячник миллионер двойка тройка пятница шестерня семья семьянин восьмёрка девятка
одиночка двадцатка сорокин стол стоп три́жды трижды однажды дважды пятак пятый первый второй третий
и а но или не в на с по для от до без hello семени питание столько""".split()
UK = """кіт собака дім вулиця місто добре погано день ніч рік час людина люди книга слово діло життя
рука світ дорога вода земля обличчя друг око питання робота сила їжак ґанок євро ялинка йод чай
сотня десяток тисячник мільйонер двійка трійка пʼятниця п'яниця м'яч м’який об'єкт сім'я сімка
вісімка одинак двадцятка сороковий стіл стоп тричі двічі п'ятий перший другий третій
і а але або не в на з по для від до без hello Д'Артаньян""".split()

EN += """or but nor yet so if then than that this these those an as at by from in into on onto off out over under up down with
without about after before between during per via plus minus times squared cubed less more each every all both either
neither other another such same own no not only very can will just should now be been being is was were do does did
would could may might must shall he she it its we us our you your him his her hers my mine me who whom whose which what
why how oh ooh naught naughts aught nada null void zilch couple couples few several many much score scores gross dozens
triple double single thrice halves thirdly quarters percent permille degree degrees hour hours minute minutes month week
o'clock am pm et und lakh lakhs crore crores googol umpteen twain threescore teen teens tween
hundredweight mille milli kilo mega giga tera billi trilli einstein kone fone toned atone sonnet tennis tenet tenant
eighty-sixed nineteenish zeroth-order one's two's ten's fives sixes eights nines elevens twenties nineties""".split()
ES += """un_o con sin e o u ni pero mas menos entre hasta hacia según tras durante mediante que cual cuyo este esta estos esas
aquel aquella mi tu su nuestro vuestro me te se nos os lo le les ser es era fue soy eres somos son estar tener tiene
tengo haber ha han ambos ambas docenas par pares decena centena centenas quincena veintena treintena medio media mitades
tercios cuartos quinto sexto séptimo octavo noveno décimo primero primera segundo segunda tercero tercera último doble
triple cada todo todos toda nada algo mucho pocos coma punto por ciento euros pesos dólares hora horas minuto mes semana""".split()
HI += """और या एवं तथा किन्तु परन्तु लेकिन अगर तो ही भी नहीं है हैं था थे थी हूँ हो होगा करना किया गया मेरा तेरा हमारा आपका उसका
इसका जो वो ये आधा आधी डेढ़ ढाई सवा पौने साढ़े दर्जन जोड़ी पहला दूसरा तीसरा चौथा पांचवां छठा दोनों तिगुना दुगुना अनेक कई
कुछ सब सभी प्रतिशत रुपये घंटे मिनट महीना""".split()
RU += """и или а но да же ли бы не ни у о об за под над при про через между около после перед ради кроме как что чтобы если то
так я ты он она оно мы вы они его её их мой твой наш ваш свой этот эта это эти тот та те весь вся всё все каждый любой
сам оба обе обоих пара полтора полторы полтораста полсотни дюжина десятки сотни треть четверть половина пол двое трое
четверо пятеро шестеро семеро много мало несколько сколько столько первая вторая третья четвёртый пятый шестой седьмой
восьмой девятый десятый процент рубль рублей часов минут""".split()
UK += """і й та або чи а але бо що щоб якщо то так не ні у в о об за під над при про через між біля після перед крім як я ти він
вона воно ми ви вони його її їх мій твій наш ваш свій цей ця це ці той та те весь вся все всі кожен сам обидва обидві
пара півтора півтори півсотні дюжина десятки сотні третина чверть половина двоє троє четверо п'ятеро шестеро семеро
багато мало кілька скільки перша друга третя четвертий п'ятий шостий сьомий восьмий дев'ятий десятий відсоток гривня
гривень годин хвилин""".split()
EN = [w for w in EN if "-" not in w]

RAW = {"en": EN, "es": ES, "hi": HI, "ru": RU, "uk": UK}
FILLERS = {lang: [w for w in ws if is_plain(lang, w)] for lang, ws in RAW.items()}
ORDINAL_LIKE = {"en": EN_ORDINAL_LIKE, "es": [], "hi": [], "ru": [], "uk": []}
ALL_FILLERS = {lang: FILLERS[lang] + ORDINAL_LIKE[lang] for lang in RAW}

ENDINGS = ["th", "ieth", "st", "nd", "rd", "s", "ies", "ly"]      # English ones, for words of other languages

# Symbols that are neither separators ("." and ",") nor connectors in any language.
SYMBOLS = list("!?;:()[]{}<>\"/%$€&*+=|@#~^«»¿¡…—–।。") + ["🙂", "!!", "?!", "(", ")", "://", "->".replace("-", "=")]
ALPHABET = {
    "en": "abcdefghijklmnopqrstuvwxyz",
    "es": "abcdefghijklmnopqrstuvwxyzáéíóúüñ",
    "hi": "कखगघचछजझटठडढतथदधनपफबभमयरलवशषसहअआइईउऊएऐओऔािीुूेैोौंँ्",
    "ru": "абвгдеёжзийклмнопрстуфхцчшщъыьэюя",
    "uk": "абвгґдеєжзиіїйклмнопрстуфхцчшщьюя",
}


def near_misses(lang):
    """Words one edit away from a number word that are not number words themselves."""
    out = set()
    letters = {"en": "sye", "es": "aos", "hi": "ाीक", "ru": "ыак", "uk": "иак"}[lang]
    for w in LEX[lang].words:
        cands = [w[:-1], w[1:]] + [w + c for c in letters] + [c + w for c in letters]
        mid = len(w) // 2
        cands += [w[:mid] + c + w[mid:] for c in letters] + [w[:mid] + w[mid + 1:]]
        cands += [w + w]
        out.update(c for c in cands if len(c) > 1 and is_plain(lang, c))
    return sorted(out)


NEAR = {lang: near_misses(lang) for lang in RAW}


def edits(w, letters):
    """All texts one edit (deletion, swap, replacement, insertion) away from w."""
    out = set()
    for i in range(len(w) + 1):
        a, b = w[:i], w[i:]
        if b:
            out.add(a + b[1:])
        if len(b) > 1:
            out.add(a + b[1] + b[0] + b[2:])
        for c in letters:
            out.add(a + c + b)
            if b:
                out.add(a + c + b[1:])
    out.discard(w)
    return out


def _alikes():
    out = {}
    for cp in range(0x250, 0x30000):
        c = chr(cp)
        d = unicodedata.normalize("NFKC", c).lower()
        if d != c and len(d) <= 2 and d.isalpha():
            out.setdefault(d, []).append(c)
    for a, b in zip("aeopcyxiаеорсухіаеіо", "аеорсухіaeopcyxiﾀﻩϊօ"):
        out.setdefault(a, []).append(b)
    out.setdefault("s", []).append("ſ")
    out.setdefault("i", []).append("ı")
    return out


def alikes(lang):
    """Number words in which a letter is replaced by a look-alike: fullwidth, superscript, ligature, another script's."""
    table = _alikes()
    out = set()
    for w in sorted(LEX[lang].words):
        for i in range(len(w)):
            for k in (1, 2):
                cs = table.get(w[i:i + k], []) if len(w[i:i + k]) == k else []
                for j, c in enumerate(cs):
                    if j < 3 or (i + j) % 4 == 0:
                        out.add(w[:i] + c + w[i + k:])
        full = "".join(table[c][-1] if c in table else c for c in w)
        out.add(full)
    return sorted(w for w in out if is_plain(lang, w) and WORDISH.fullmatch(w))


def misses(lang):
    """Every plain word within one edit of a number word of the language, and pairs glued together."""
    out = set()
    ws = sorted(LEX[lang].words)
    for w in ws:
        out |= edits(w, ALPHABET[lang] + "_1")
    for i, w in enumerate(ws):
        out.add(w + ws[(i * 7 + 3) % len(ws)])
        out.add(ws[(i * 5 + 1) % len(ws)] + w)
    return sorted(w for w in out if is_plain(lang, w) and WORDISH.fullmatch(w) and not w.isdecimal())
