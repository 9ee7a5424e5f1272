package h

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

func parseText(s string) (*ast.AstNode, error) {
	a := ast.NewAST(s)
	err := a.Parse()
	return a, err
}


// Well-formed base programs; tokens are separated by single spaces.
var bases = []string{
	`Процедура П ( ) КонецПроцедуры`,
	`Функция Ф ( а , Знач б = 1 , в = - 2 ) Экспорт Перем г , д ; Перем е ; Возврат а + б ; КонецФункции`,
	`Перем а ; &НаСервере Перем б , в Экспорт ; &НаКлиенте Процедура П ( ) КонецПроцедуры П ( ) ;`,
	`Если а Тогда б ( ) ; ИначеЕсли в Тогда г ( ) ; ИначеЕсли д Тогда Иначе е ( ) ; КонецЕсли ;`,
	`Для Каждого э Из а . Из Цикл Если э Тогда Прервать ; КонецЕсли ; Продолжить ; КонецЦикла ;`,
	`Для к = 1 По н . К ( ) Цикл Пока а > к Цикл б ( к ) ; КонецЦикла ; КонецЦикла`,
	`Попытка а ( ) ; Исключение ВызватьИсключение ; КонецПопытки ; ВызватьИсключение "т" ;`,
	`а = б + в * ( г - д ) / 2 % е ; а . Если [ 1 ] . в = Не г И д Или Истина <> Ложь ;`,
	`а = ? ( б , 1 , Неопределено ) ; б = Новый Структура ( "к" , , в ) ; в = Новый ( "т" ) ; г = Новый Массив ;`,
	`а . б ( 1 , , "с" ) . в [ г ] ; Выполнить ( "к" ) ; Выполнить "к" ;`,
	`~м : а ( ) ; Перейти ~м ; д = '20200101' ; с = "а" "б" ; Возврат ;`,
	`Процедура П ( ) Если а Тогда Возврат ; КонецЕсли КонецПроцедуры Функция Ф ( ) Возврат - а . Новый ( - в ) КонецФункции`,
	`Для Каждого э Из Новый Массив ( 1 ) Цикл КонецЦикла ; Для Каждого э Из ( Новый Массив ) Цикл ; КонецЦикла ; Для Каждого э Из ? ( а , б , в ) Цикл КонецЦикла`,
	`а ( б >= 1 , в <= 2 , - г . д , Не е , ( ж ) , "а" , 'Д20200101' , Истина ) ;`,
}

func init() {
	for i, b := range bases {
		bases[i] = strings.ReplaceAll(b, "'Д2", "'2")
	}
}

func init() { All["Bases"] = Bases }

// Bases: the base programs themselves are accepted (and so is every one without its white space where it may go).
func Bases() {
	s := bases[verif.Choose(len(bases))]
	_, err := parseText(s)
	verif.Check(err == nil, "rejected: "+s)
	checkAccept(s)
}

func baseToks(i int) []string { return strings.Split(bases[i], " ") }
