package main

// Code generated by "harness grind"; names whose private indices under
// keysFor(k) share long prefixes, in groups.

var deepNames = map[int64][]string{
	1: {
		"p041258-deep p035594-deep",                                        // 32 bits
		"p154933-deep p099231-deep",                                        // 32 bits
		"p103405-deep p186967-deep",                                        // 31 bits
		"p135617-deep p092255-deep",                                        // 31 bits
		"p080873-deep p007558-deep",                                        // 31 bits
		"p146033-deep p032697-deep",                                        // 31 bits
		"p078297-deep p126203-deep",                                        // 31 bits
		"p123783-deep p037686-deep",                                        // 31 bits
		"p186507-deep p168125-deep p077065-deep",                           // 24 bits
		"p063348-deep p144634-deep p178873-deep",                           // 24 bits
		"p133907-deep p163274-deep p138038-deep",                           // 24 bits
		"p011211-deep p127933-deep p012269-deep",                           // 24 bits
		"p066898-deep p149250-deep p033284-deep",                           // 24 bits
		"p028047-deep p152486-deep p071409-deep",                           // 23 bits
		"p125829-deep p193146-deep p033981-deep p199704-deep p135202-deep", // 20 bits
		"p067842-deep p057155-deep p165057-deep p048769-deep p123457-deep", // 20 bits
		"p031272-deep p036571-deep p125726-deep p038023-deep p077383-deep", // 19 bits
		"p015351-deep p006488-deep p018872-deep p095094-deep p119521-deep", // 19 bits
		"p037167-deep p004845-deep p182896-deep p098255-deep p139168-deep", // 19 bits
		"p141693-deep p040898-deep p173228-deep p008221-deep p085894-deep", // 19 bits
		"p141693-deep p040898-deep p173228-deep p008221-deep p085894-deep p164988-deep p005925-deep p076657-deep p139036-deep p141803-deep p047680-deep p061699-deep", // 16 bits
		"p187321-deep p011062-deep p059748-deep p036523-deep p156868-deep p060046-deep p051251-deep p121367-deep p100819-deep p021438-deep p121310-deep p116580-deep", // 16 bits
		"p011062-deep p059748-deep p036523-deep p156868-deep p060046-deep p051251-deep p121367-deep p100819-deep p021438-deep p121310-deep p116580-deep p061685-deep", // 16 bits
	},
	2: {
		"p062998-deep p032813-deep",                                        // 34 bits
		"p169508-deep p169688-deep",                                        // 34 bits
		"p167337-deep p007846-deep",                                        // 33 bits
		"p103715-deep p104939-deep",                                        // 33 bits
		"p158843-deep p148051-deep",                                        // 33 bits
		"p065755-deep p098529-deep",                                        // 31 bits
		"p177631-deep p104242-deep",                                        // 31 bits
		"p008148-deep p178807-deep",                                        // 30 bits
		"p083975-deep p122570-deep p093417-deep",                           // 25 bits
		"p056504-deep p021233-deep p037746-deep",                           // 24 bits
		"p110240-deep p025364-deep p181630-deep",                           // 23 bits
		"p179453-deep p082934-deep p079562-deep",                           // 23 bits
		"p087632-deep p159221-deep p056115-deep",                           // 23 bits
		"p104135-deep p162183-deep p091325-deep",                           // 23 bits
		"p138518-deep p094626-deep p080352-deep p078178-deep p081758-deep", // 20 bits
		"p142661-deep p138518-deep p094626-deep p080352-deep p078178-deep", // 19 bits
		"p062977-deep p003841-deep p192111-deep p107402-deep p035292-deep", // 19 bits
		"p052857-deep p087193-deep p073685-deep p058510-deep p013482-deep", // 19 bits
		"p149476-deep p168039-deep p031985-deep p081979-deep p185266-deep", // 19 bits
		"p175561-deep p175312-deep p017710-deep p102412-deep p065908-deep", // 19 bits
		"p167589-deep p101304-deep p037655-deep p018716-deep p108131-deep p085123-deep p050116-deep p137148-deep p072231-deep p107288-deep p099539-deep p002760-deep", // 16 bits
		"p020117-deep p027290-deep p169755-deep p113191-deep p002628-deep p071642-deep p181638-deep p088386-deep p108392-deep p074748-deep p096405-deep p162568-deep", // 16 bits
		"p027290-deep p169755-deep p113191-deep p002628-deep p071642-deep p181638-deep p088386-deep p108392-deep p074748-deep p096405-deep p162568-deep p017956-deep", // 16 bits
	},
	3: {
		"p113787-deep p152574-deep",                                        // 33 bits
		"p196804-deep p162429-deep",                                        // 33 bits
		"p013928-deep p013993-deep",                                        // 32 bits
		"p082493-deep p132562-deep",                                        // 31 bits
		"p168579-deep p014029-deep",                                        // 31 bits
		"p127390-deep p112677-deep",                                        // 31 bits
		"p064750-deep p119868-deep",                                        // 31 bits
		"p122356-deep p072909-deep",                                        // 30 bits
		"p118149-deep p148368-deep p079695-deep",                           // 26 bits
		"p196103-deep p007586-deep p026339-deep",                           // 25 bits
		"p197380-deep p084444-deep p145763-deep",                           // 25 bits
		"p165619-deep p002665-deep p094763-deep",                           // 24 bits
		"p095205-deep p087110-deep p139347-deep",                           // 24 bits
		"p071658-deep p088232-deep p045586-deep",                           // 24 bits
		"p129152-deep p050468-deep p145329-deep p083611-deep p110756-deep", // 20 bits
		"p029236-deep p171937-deep p196759-deep p091399-deep p110509-deep", // 20 bits
		"p092438-deep p122519-deep p163253-deep p081030-deep p083512-deep", // 19 bits
		"p007119-deep p143218-deep p086239-deep p120990-deep p085644-deep", // 19 bits
		"p164952-deep p022075-deep p182417-deep p068887-deep p185599-deep", // 19 bits
		"p119627-deep p076682-deep p045631-deep p118675-deep p023812-deep", // 19 bits
		"p100555-deep p103346-deep p135286-deep p156928-deep p072818-deep p057739-deep p097086-deep p042496-deep p045936-deep p049772-deep p102690-deep p044638-deep", // 16 bits
		"p175480-deep p172262-deep p010051-deep p118040-deep p111011-deep p137569-deep p075626-deep p142654-deep p097473-deep p033860-deep p170275-deep p034665-deep", // 16 bits
		"p149485-deep p113927-deep p067385-deep p006215-deep p126846-deep p036023-deep p161016-deep p179158-deep p004916-deep p188503-deep p166611-deep p082091-deep", // 16 bits
	},
	4: {
		"p015225-deep p155989-deep",                                        // 33 bits
		"p010701-deep p043368-deep",                                        // 32 bits
		"p060947-deep p120187-deep",                                        // 32 bits
		"p194262-deep p181798-deep",                                        // 31 bits
		"p178216-deep p184204-deep",                                        // 31 bits
		"p067772-deep p037706-deep",                                        // 31 bits
		"p187858-deep p080014-deep",                                        // 30 bits
		"p121990-deep p083557-deep",                                        // 30 bits
		"p172457-deep p085415-deep p048599-deep",                           // 25 bits
		"p055318-deep p044053-deep p040588-deep",                           // 25 bits
		"p018649-deep p098577-deep p151436-deep",                           // 24 bits
		"p081848-deep p193547-deep p033372-deep",                           // 24 bits
		"p016009-deep p056136-deep p005356-deep",                           // 24 bits
		"p088025-deep p006948-deep p040794-deep",                           // 24 bits
		"p024028-deep p157138-deep p100838-deep p111886-deep p084413-deep", // 20 bits
		"p027631-deep p179615-deep p098698-deep p004542-deep p181270-deep", // 19 bits
		"p172778-deep p070344-deep p158680-deep p163569-deep p184290-deep", // 19 bits
		"p182574-deep p087017-deep p116892-deep p125561-deep p124311-deep", // 19 bits
		"p176162-deep p090119-deep p126495-deep p147634-deep p148662-deep", // 19 bits
		"p175333-deep p027659-deep p064358-deep p191790-deep p124502-deep", // 19 bits
		"p157292-deep p139249-deep p002425-deep p198978-deep p019444-deep p027377-deep p168284-deep p173600-deep p066800-deep p149373-deep p163329-deep p076771-deep", // 16 bits
		"p149103-deep p135537-deep p069592-deep p106271-deep p121288-deep p016146-deep p076676-deep p161795-deep p100255-deep p010036-deep p063583-deep p171030-deep", // 15 bits
		"p000462-deep p108119-deep p006979-deep p084187-deep p192085-deep p081222-deep p119917-deep p100979-deep p056809-deep p054641-deep p124170-deep p155365-deep", // 15 bits
	},
}
