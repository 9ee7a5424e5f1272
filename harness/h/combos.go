package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func init() {
	All["Combo"] = Combo
}

// Families without a deviation budget: complete products of a few dimensions.

const hole = "□"

// slots: every place of a module that takes an expression (and some that do not).
var slots = []string{
	"а = □ ;", "а . б = □ ;", "а [ □ ] = 1 ;", "□ ;", "а ( □ ) ;", "Если □ Тогда в ( ) ; КонецЕсли ;",
	"Если а Тогда ИначеЕсли □ Тогда б ( ) ; Иначе в ( ) ; КонецЕсли ;", "Пока □ Цикл в ( ) ; КонецЦикла ;",
	"Для к = □ По н Цикл в ( ) ; КонецЦикла ;", "Для к = 1 По □ Цикл в ( ) ; КонецЦикла ;", "Для Каждого э Из □ Цикл в ( ) ; КонецЦикла ;",
	"Функция Ф ( ) Возврат □ ; КонецФункции", "Процедура Ф ( ) Возврат □ ; КонецПроцедуры", "ВызватьИсключение □ ;",
	"Попытка а ( ) ; Исключение ВызватьИсключение □ ; КонецПопытки ;", "Выполнить ( □ ) ;", "Выполнить □ ;",
	"Процедура П ( а = □ ) КонецПроцедуры", "Функция Ф ( Знач а , б = □ , Знач в = 1 ) Экспорт Если а Тогда Возврат □ ; КонецЕсли ; КонецФункции",
	"~м : □ ; б ( )", "Функция Ф ( ) Пока а Цикл Попытка Возврат □ ; Исключение КонецПопытки ; КонецЦикла ; КонецФункции",
	"Возврат □ ;", "Функция Ф ( ) КонецФункции Процедура Г ( ) Возврат □ ; КонецПроцедуры", "а [ 1 ] . б ( □ ) . в = □",
}

// outers: expressions around an expression.
var outers = []string{
	"□", "- □", "+ □", "Не □", "( □ )", "- ( □ )", "Не ( □ )", "( - □ )", "□ + ц", "ц - □", "□ - ц", "□ * ц", "ц / □", "□ % ц", "ц % □", "□ = ц", "ц <> □",
	"□ < ц", "ц >= □", "□ И ц", "ц И □", "ц Или □", "□ Или ц", "ц ( □ )", "ц ( , □ )", "ц ( □ , )", "ц . ч ( □ )", "ц [ □ ]", "ц [ □ ] . ч", "ц ( □ ) . ч ( )",
	"ц . ч [ □ ]", "? ( □ , ц , ч )", "? ( ц , □ , ч )", "? ( ц , ч , □ )", "Новый Ц ( □ )", "Новый ( □ )", "Новый Ц ( ц , □ )", "ц . ч ( □ ) [ 1 ]",
}

// inners: expressions to put inside.
var inners = []string{
	"н", "5", "0", "1.5", "100000000000000000000", "0.000001", `"с"`, `"а""б"`, `""`, "\"а \n |б\"", "Истина", "Ложь", "Неопределено", "'20240229'", "'20240229010203'", "'202402290102'", "'00000000'",
	"н ( )", "н ( , )", "н . м", "н . м ( )", "н [ 1 ]", "н [ 1 ] [ 2 ]", "Новый Х", "Новый Х ( )", "? ( 1 , 2 , 3 )", "( н )", "- н", "Не н", "н + м", "н И м", "н < м",
	"- 5", "Не Истина", "- ( - 5 )", "~м", "Выполнить ( н )", "",
}

// oddExprs, oddStmts: what the grammar admits beyond 1C.
var oddExprs = []string{
	"( н , м )", "( , )", "( )", "( н , )", "( , м , 5 )", "( ( н , м ) , д )", "~м", "Перейти ~м", "Выполнить ( н )", `Выполнить "с"`, "Выполнить н", "Выполнить ( н ) [ 1 ]", "Выполнить ( н ) . м",
	"- Не н", "- ( н , м )", "+ ( )", "Не ( н , м )", "- ~м", "- Истина", `- "с"`, "- Неопределено", "- '20200101'", "н + Не м", "Не Не н", "- - н", "~", "- Перейти ~м", "( н , - м ) + 1", "? ( ( н , м ) , ( ) , 1 )",
}

var oddStmts = []string{
	"н", "5", `"с"`, "Истина", "Неопределено", "'20200101'", "н + м", "- н", "Не н", "( н , м )", "( )", "? ( н , м , д )", "Новый Х", "Новый ( н )", "н . м", "н [ 1 ]", "н ( ) = 1", "н . м ( ) = 1", "Выполнить н = 1", "Выполнить ( н ) . м = 1",
	"~м", "~м + 1", "Перейти ~м", "Перейти ~м + 1", "~м : ~м : н ( )", "; ; :", ": н ( )", "~ : н ( )", "Для н По 5 Цикл КонецЦикла", "Для н + 1 По 5 Цикл м ( ) КонецЦикла", "Для ( н , м ) По ( ) Цикл КонецЦикла", "Для Каждого н Из Выполнить ( м ) Цикл КонецЦикла",
	"Для Каждого н Из ( Новый М ) Цикл КонецЦикла", "ВызватьИсключение ( н , м )", "ВызватьИсключение ( н , , м ) ;", "ВызватьИсключение ( )", "Если ( н , м ) Тогда КонецЕсли", "Пока ~м Цикл КонецЦикла", "~м н ( )", "~м ; н ( )", "~м : ; ~м :",
}

var oddPlaces = []string{"□", "□ ;", "а ( ) ; □", "Процедура П ( ) □ КонецПроцедуры", "Если а Тогда □ ИначеЕсли б Тогда □ Иначе □ КонецЕсли ;", "Пока а Цикл □ ; КонецЦикла", "Попытка □ Исключение □ КонецПопытки"}

var deepBlocks = []string{"Пока а Цикл □ КонецЦикла ;", "Если а Тогда □ КонецЕсли ;", "Если а Тогда д ( ) ; Иначе □ КонецЕсли ;", "Если а Тогда ИначеЕсли в Тогда □ ИначеЕсли г Тогда д ( ) КонецЕсли ;",
	"Попытка □ Исключение КонецПопытки ;", "Попытка д ( ) ; Исключение □ КонецПопытки ;", "Для Каждого э Из в Цикл □ КонецЦикла ;", "Для к = 1 По в Цикл □ КонецЦикла ;"}

var manyCounts = []int{0, 1, 2, 3, 4, 7, 13, 17, 33, 65, 130, 270}

// manyForms: a frame, what stands between two pieces, the piece, and what closes it (at ■).
var manyForms = [][4]string{
	{"□ ;", " ; ", "н% ( )"}, {"□", " ", "н% = % ;"}, {"а ( □ ) ;", " , ", "н%"}, {"а = Новый Б ( □ ) ;", " , ", "- н%"}, {"Процедура П ( □ ) КонецПроцедуры", " , ", "п% = %"}, {"Процедура П ( ) Перем □ ; КонецПроцедуры", " , ", "л%"}, {"Процедура П ( ) □ КонецПроцедуры", " ", "Перем л% ;"},
	{"Перем □ ;", " , ", "г%"}, {"□", " ", "Перем г% Экспорт ;"}, {"□", " ", "&НаКлиенте Перем г% ;"}, {"Если а Тогда □ КонецЕсли ;", " ", "ИначеЕсли у% Тогда д% ( ) ;"}, {"□", " ", "Процедура П% ( ) КонецПроцедуры"}, {"□", " ", "&НаСервере Функция П% ( а% ) Экспорт Возврат % ; КонецФункции"},
	{"а = б □ ;", " ", ". м%"}, {"а = б □ ;", " ", "[ % ]"}, {"а □ = 1 ;", " ", "[ % ] . м"}, {"а □ ;", " ", ". м ( % )"}, {"а = н □ ;", " ", "+ % * 2"}, {"а = н □ ;", " ", "И н% < 1"}, {"а = □ н ■ ;", " ", "( % -", " )"}, {"а = □ н ;", " ", "-"}, {"а = □ н ;", " ", "Не"}, {"а = \"□\" ;", "\n|", "с%"}, {"а = □ ;", " ", "\"с%\""},
	{"□", " ", "~м% :"}, {"□", " ", "; ;"}, {"Пока а Цикл □ КонецЦикла", " ", "Если а% Тогда Прервать ; КонецЕсли ;"}, {"□", " ", "Попытка а% ( ) ; Исключение ВызватьИсключение ; КонецПопытки ;"}, {"□", " ", "Для Каждого э% Из в% Цикл Продолжить ; КонецЦикла ;"}, {"Пока а Цикл □ КонецЦикла", " ", "Прервать ;"}, {"Функция Ф ( ) □ КонецФункции", " ", "Возврат ;"}, {"Попытка Исключение □ КонецПопытки", " ", "ВызватьИсключение ;"},
	{"а = □ 1 ■ ;", " ", "? ( у% , % ,", " )"}, {"а = □ н ■ ;", " ", "ф% ( 1 ,", " )"}, {"а = □ н ■ ;", " ", "Не (", " )"}, {"а = □ н ■ ;", " ", "Новый Ц ( ,", " )"}, {"а = □ н ■ ;", " ", "м% [", " ]"}, {"а = б ( □ ) ;", " , ", ""}, {"а = ы□ ;", "", "ы"}, {"// □\nа ( ) ;", "", "к%"}, {"а ( ) ; // □", "\n//", "к%"}, {"□ а ( ) ;", "", "\n#Область о%\n"}, {"а = 1□ ;", "", "5", ""}, {"а = 0.□1 ;", "", "0", ""}, {"а = \"□\" ;", "", "ж", ""}, {"а = \"□\" ;", "", `""`, ""}, {"ы□ ( ) ;", "", "ы", ""}, {"~ы□ : а . ы□ = 1 ;", "", "ы", ""},
	{"□ Прервать ; ■", " ", "Пока н% Цикл", " КонецЦикла ;"}, {"□ ■ Прервать ;", " ", "Пока н% Цикл", " КонецЦикла ;"}, {"Функция Ф ( ) □ Возврат 1 ; ■ КонецФункции", " ", "Для Каждого э% Из н% Цикл Если э% Тогда", " КонецЕсли ; КонецЦикла ;"},
	{"□ ВызватьИсключение ; ■", " ", "Попытка Исключение", " КонецПопытки ;"}, {"Попытка □ ■ ВызватьИсключение ; Исключение КонецПопытки ;", " ", "Попытка Исключение", " КонецПопытки ;"}, {"□ а ( ) ; ■", " ", "Если н% Тогда м% ( ) ; ИначеЕсли у% Тогда", " Иначе ж ( ) ; КонецЕсли ;"},
	{"а ( ) ; □ б ( ) ;", "", "// к%\n#Область о%\n"},
}

// edgeLits: a digit stands for %.
var edgeLits = []string{"214748364%", "429496729%", "900719925474099%", "9007199254740993", "922337203685477580%", "9500000000000000000", "1844674407370955161%", "99999999999999999999%", "1%00000000000000000000000", "12345678901234567%", "0.%", "0.1%", "0.000000%", "0.00000000000000000%", "1.7976931348623157%",
	"%.0", "0%", "00%.50", "123456.7890%", "16777217.%", "0.3000000000000000%", "4294967296.%", "99999999.99999999%", "1%0000.00001",
	"'0001010%'", "'99991231'", "'2024022%'", "'20240229235959'", "'2024022923595%'", "'20240229235%'", "'00000000000000'", "'000000000000'", "'19700101'", "'2024.01.0%'"}

func manyText(r [4]string, n int) string {
	t := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			t += r[1]
		}
		t += strings.ReplaceAll(r[2], "%", itoa((i*7+3)%1009)) // distinct and not sorted
	}
	return strings.ReplaceAll(fill(r[0], t), "■", strings.Repeat(r[3], n))
}

func fill(template, x string) string { return strings.ReplaceAll(template, hole, x) }

// combo builds a text of the family; two of its names have an arbitrary letter, one string an arbitrary character.
func combo() string {
	t := strings.Split(comboText(), " ")
	names, strs := verif.Param("sym", 2), verif.Param("sym", 1)
	for i, w := range t {
		switch {
		case (w == "ц" || w == "н" || w == "в") && names > 0:
			names--
			t[i] = w + string([]byte{verif.ByteIn('a', 'z')})
		case w == `"с"` && strs > 0:
			strs--
			b := verif.Byte()
			verif.Assume(b < 0x80 && b != '"' && b != '\n')
			t[i] = `"с` + string([]byte{b}) + `"`
		}
	}
	return strings.Join(t, " ")
}

func comboText() string {
	switch fam := verif.Param("fam", 10); fam {
	case 10: // an expression in every place
		o := outers[verif.Choose(len(outers))]
		return fill(slots[verif.Choose(len(slots))], fill(o, inners[verif.Choose(len(inners))]))
	case 11: // two expressions around one, in a few places
		s := slots[[]int{0, 3, 5, 11, 4}[verif.Choose(verif.Param("slots", 1))]]
		o := fill(outers[verif.Choose(len(outers))], outers[verif.Choose(len(outers))])
		step := verif.Param("step", 1)
		return fill(s, fill(o, inners[step*verif.Choose((len(inners)+step-1)/step)]))
	case 12: // argument lists
		n := verif.Choose(verif.Param("n", 4) + 1)
		t := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				t += " , "
			}
			t += []string{"", "б" + string([]byte{verif.ByteIn('a', 'z')}), "- 1", "г ( , д )"}[verif.Choose(4)]
		}
		return fill([]string{"а ( □ ) ;", "а = б ( □ ) ;", "а = Новый Б ( □ ) ;", "а = Новый ( □ ) ;", "а . б ( □ ) . в ( ) ;", "а = - б . в ( □ ) ;", "Если Не а ( □ ) Тогда КонецЕсли", "а = ( □ ) ;", "а ( б ( □ ) ) ;"}[verif.Choose(9)], t)
	case 13: // statement lists
		t := ""
		for i, n := 0, verif.Choose(verif.Param("n", 2)+1); i < n; i++ {
			t += []string{"н%( ) ;", "н% = 1 ;", "Если н% Тогда м% ( ) ; КонецЕсли ;", "Если н% Тогда Иначе м% ( ) ; КонецЕсли ;", "Если н% Тогда м% ( ) ; Иначе КонецЕсли ;", "Если н% Тогда ИначеЕсли м% Тогда КонецЕсли ;",
				"Пока н% Цикл м% ( ) ; КонецЦикла ;", "Для Каждого н% Из м% Цикл КонецЦикла ;", "Для н% = 1 По 2 Цикл м% ( ) ; КонецЦикла ;", "Попытка н% ( ) ; Исключение м% ( ) ; КонецПопытки ;",
				"Попытка Исключение КонецПопытки ;", "Перейти ~н% ;", "~н% :", "~н% : м% ( ) ;", "ВызватьИсключение н% ;", "Возврат ;", ";", "н% . м% ( 1 ) ;", "н% [ 1 ] = м% ;", "Выполнить ( н% ) ;", "Выполнить \"н%\" ;", "Если н% Тогда Если м% Тогда ; КонецЕсли ; КонецЕсли ;", "м% = н% И м% ;",
				"Прервать ;", "Продолжить ;", "ВызватьИсключение ;", "Возврат н% ;"}[verif.Choose(23+4*verif.Param("eq", 0))] + " "
			if verif.Param("eq", 0) == 0 {
				t = strings.ReplaceAll(t, "%", string([]byte{byte('1' + i)}))
			}
		}
		t = strings.ReplaceAll(t, "%", "1")
		t += []string{"", "п ( )"}[verif.Choose(2)]
		return fill([]string{"□", "Процедура П ( ) □ КонецПроцедуры", "Функция Ф ( ) □ КонецФункции", "Если а Тогда □ КонецЕсли ; в ( ) ;", "Если а Тогда б ( ) Иначе □ КонецЕсли ; в ( ) ;",
			"Если а Тогда б ( ) ИначеЕсли в Тогда □ Иначе г ( ) КонецЕсли", "Пока а Цикл □ КонецЦикла", "Попытка □ Исключение б ( ) ; КонецПопытки ; в ( ) ;", "Попытка б ( ) ; Исключение □ КонецПопытки ;",
			"Процедура П ( ) Перем а ; Пока б Цикл □ КонецЦикла ; г ( ) ; КонецПроцедуры д ( ) ;", "а ( ) ; □"}[verif.Choose(11)], t)
	case 16: // forms that are not 1C, accepted all the same
		t := oddExprs[verif.Choose(len(oddExprs))]
		return fill(slots[verif.Choose(len(slots))], fill(outers[verif.Choose(len(outers))], t))
	case 18: // literals of arbitrary characters
		x := ""
		for i, n := 0, verif.Param("n", 3); i < n; i++ {
			x += []string{string([]byte{verif.ByteIn(' ', '~')}), `""`, "\n   |", "\n//к\n|", "ж"}[verif.Choose(5)]
		}
		return fill([]string{`а = "□" ;`, `Процедура П ( а = "□" ) КонецПроцедуры`, `Если а ( "□" ) Тогда б ( "□" , "" ) ; КонецЕсли ;`, `Выполнить "□" ;`, `а = "□" "б" ;`}[verif.Choose(5)], x)
	case 19: // deep nesting
		in := []string{"б ( ) ;", "", "ц = н", "Прервать ;", "Продолжить ;", "Возврат 1 ;", "ВызватьИсключение ;", "~м :", "Если а Тогда ИначеЕсли б Тогда Иначе КонецЕсли ;"}
		t := in[verif.Choose(len(in))]
		k1, k2 := verif.Choose(len(deepBlocks)), verif.Choose(len(deepBlocks))
		after := []string{"", " п ( ) ;"}[verif.Choose(2)]
		for i, n := 0, verif.Param("min", 1)+verif.Choose(verif.Param("n", 6)); i < n; i++ {
			k := k1
			if i%2 == 1 {
				k = k2
			}
			t = fill(deepBlocks[k], t) + after
		}
		return fill([]string{"□", "Функция Ф ( ) □ КонецФункции"}[verif.Choose(2)], t)
	case 20: // the same thing many times
		n := manyCounts[verif.Choose(verif.Param("cnt", 10))]
		r := manyForms[verif.Choose(len(manyForms))]
		if len(r[2]) <= 2 && n >= 65 {
			n = n*4 + 140 // long words, numbers and texts
		}
		if strings.Contains(r[3], "Конец") && n > 65 {
			n = 80 // blocks
		}
		return manyText(r, n)
	case 21: // numbers and dates at the edges of their ranges
		v := edgeLits[verif.Choose(len(edgeLits))]
		v = strings.ReplaceAll(v, "%", string([]byte{verif.ByteIn('0', '9')}))
		return fill([]string{"а = □ ;", "а = - □ ;", "Процедура П ( а = □ ) КонецПроцедуры", "а ( □ , - □ ) ;", "а [ □ ] = б * □ ;", "Функция Ф ( ) Возврат □ ; КонецФункции"}[verif.Choose(6)], v)
	case 17:
		return fill(oddPlaces[verif.Choose(len(oddPlaces))], oddStmts[verif.Choose(len(oddStmts))])
	case 14: // branches
		t := "Если а Тогда □ "
		bodies := []string{"", ";", "б ( ) ;", "Если в Тогда г ( ) ; ИначеЕсли д Тогда Иначе е ( ) ; КонецЕсли ;", "к ( ) ; л ( )"}
		t = fill(t, bodies[verif.Choose(len(bodies))])
		for i, n := 0, verif.Choose(verif.Param("n", 3)+1); i < n; i++ {
			t += "ИначеЕсли у" + string([]byte{byte('1' + i)}) + " Тогда " + bodies[verif.Choose(len(bodies))] + " "
		}
		if c := verif.Choose(len(bodies) + 1); c > 0 {
			t += "Иначе " + bodies[c-1] + " "
		}
		t += "КонецЕсли ;"
		return []string{"", "Функция Ф ( ) ", "Пока я Цикл "}[0] + t
	case 15: // parameters
		t := ""
		for i, n := 0, verif.Choose(verif.Param("n", 3)+1); i < n; i++ {
			if i > 0 {
				t += " , "
			}
			x := "п" + string([]byte{byte('1' + i)})
			t += []string{x, "Знач " + x, x + " = Неопределено", "Знач " + x + " = - 5", x + " = \"\"", x + " = Ложь", x + " = 0", x + " = '00000000'"}[verif.Choose(8)]
		}
		pre := []string{"", "&НаСервере "}[verif.Choose(2)]
		exp := []string{"", "Экспорт "}[verif.Choose(2)]
		loc := []string{"", "Перем а ; ", "Перем б , а ; Перем в ; "}[verif.Choose(3)]
		if verif.Choose(2) == 0 {
			return pre + "Процедура П ( " + t + " ) " + exp + loc + "КонецПроцедуры"
		}
		return "Процедура А ( а , Знач б = 1 ) Экспорт Перем я ; КонецПроцедуры " + pre + "Функция П ( " + t + " ) " + exp + loc + "КонецФункции"
	}
	return ""
}

// Combo: the parser accepts exactly what the reference accepts, with the same tree, over a complete product.
func Combo() { checkAccept(combo()) }
