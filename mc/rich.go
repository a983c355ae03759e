package main

// Chunks of lines using every feature of journals, alone and together.
var richAlphabet = []string{
	"account A ; code:77",
	"account A:B ; note\n  ; second note\n  ; code: x 9",
	"account Z z:Y",
	"commodity 1.000,00 € ; isin:ES001",
	"commodity $1,000.00 ; dollars\n\t; isin:US1\n\t; more: tags",
	"commodity 1 000",
	"P 2020-01-05 USD 0,90 € ; quoted",
	"P 2020-01-06/10:30 $ 0.95 EUR",
	"D 1.000,00 €",
	"D",
	"2020-01-05 pay ; c1\n  ; c2\n  A  1,50 € ; k1\n  ; k2\n  C",
	"2020-01-05/10:30:15 change\n  A  -2 USD @ 0,95 € ; date:2020-01-06\n  A:B",
	"2020-01-06 exchange\n  A  -3 $\n  C:D  2.50 EUR",
	"2020-01-06\n  E  0\n  F",
	"2020-01-07 check\n  A  = 7 USD\n  C ; date:2020-01-04/01:02:03",
	"2020-01-07 total\n  A  -3 X @@ 10 €\n  A:B  10 €",
	"2020-01-07 no name\n  A  5\n  G  -5 = -5",
	"2020-01-08 many\n  A  0.12345678 BTC\n  A  -0.12345678 BTC\n  K  1 €\n  K  -1 € = 0 €",
	"2020-01-08 nothing\n  A\n  ; here date:2020-01-09",
	"  ; loose comment",
	"; global comment",
	"garbage line",
	"  H  1 €",
	"P 2020-01-05 USD",
	"  A  1..5 €",
}

// Names with spaces of all kinds where they begin or end, with characters whose last
// byte is also that of a space, and with the signs of prices and assertions.
var oddAlphabet = []string{
	"account X :A ; code:1",
	"account X : B:C",
	"account X",
	"account X:A",
	"account \u00a0Y\t:\tZ",
	"2020-01-05 a\n  X\t  1 €\n  X :A  1 €\n  W",
	"2020-01-05 b\n  X\u00a0  1 €\n  X  2 €\n  X :A",
	"P 2020-01-05 A@B 2 € ; c\n  ; d",
	"P 2020-01-05 = 2 €",
	"P 2020-01-05 U\t 2 €",
	"P 2020-01-05 U\u00a0V 2 €",
	"P 2020-01-05 U 2 €",
	"commodity ₠5.0",
	"commodity 5.00à",
	"2020-01-06 c\n  X  à5 = à5\n  W  ₠-1",
	"2020-01-06 d\n  X  5\u00a0à\n  W  à\t-5",
	"2020-01-06 e\n  X  2 big apples @ 3 small  pears\n  W",
	"2020-01-06 f\n  X  -3 big apples @ -0,33333333 €\n  W",
}
