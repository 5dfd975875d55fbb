----------------------------- MODULE EnoMessages -----------------------------
(***************************************************************************)
(* What errors say, in every locale (property C20).  This is the           *)
(* specification's own copy of the translations under /repo/locales, k is  *)
(* the key (or the message of a loader), l the line number. Characters     *)
(* beyond ASCII are written as their code point, {fc} for u umlaut.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Locales == {"en", "de", "es"}

EnPlain ==
  [content_header |-> "Content",
   expected_empty |-> "An empty element was expected.",
   expected_field |-> "A field was expected.",
   expected_fields |-> "Only fields were expected.",
   expected_fieldset |-> "A fieldset was expected.",
   expected_fieldset_entry |-> "A fieldset entry was expected.",
   expected_fieldsets |-> "Only fieldsets were expected.",
   expected_list |-> "A list was expected.",
   expected_list_item |-> "A list item was expected.",
   expected_lists |-> "Only lists were expected.",
   expected_section |-> "A section was expected.",
   expected_sections |-> "Only sections were expected.",
   expected_single_element |-> "Only a single element was expected.",
   expected_single_empty |-> "Only a single empty element was expected.",
   expected_single_field |-> "Only a single field was expected.",
   expected_single_fieldset |-> "Only a single fieldset was expected.",
   expected_single_fieldset_entry |-> "Only a single fieldset entry was expected.",
   expected_single_list |-> "Only a single list was expected.",
   expected_single_section |-> "Only a single section was expected.",
   gutter_header |-> "Line",
   missing_comment |-> "A required comment for this element is missing.",
   missing_element |-> "A single element is required - it can have any key.",
   missing_empty |-> "A single empty element is required - it can have any key.",
   missing_field |-> "A single field is required - it can have any key.",
   missing_fieldset |-> "A single fieldset is required - it can have any key.",
   missing_fieldset_entry |-> "A single fieldset entry is required - it can have any key.",
   missing_list |-> "A single list is required - it can have any key.",
   missing_section |-> "A single section is required - it can have any key.",
   unexpected_element |-> "This element was not expected, make sure it is at the right place in the document and that its key is not mis-typed."]

En(n, k, l) ==
  CASE n = "comment_error" -> "There is a problem with the comment of this element: " \o k
    [] n = "cyclic_dependency" -> "In line " \o l \o " '" \o k \o "' is copied into itself."
    [] n = "expected_empty_with_key" -> "An empty element with the key '" \o k \o "' was expected."
    [] n = "expected_field_with_key" -> "A field with the key '" \o k \o "' was expected."
    [] n = "expected_fields_with_key" -> "Only fields with the key '" \o k \o "' were expected."
    [] n = "expected_fieldset_with_key" -> "A fieldset with the key '" \o k \o "' was expected."
    [] n = "expected_fieldsets_with_key" -> "Only fieldsets with the key '" \o k \o "' were expected."
    [] n = "expected_list_with_key" -> "A list with the key '" \o k \o "' was expected."
    [] n = "expected_lists_with_key" -> "Only lists with the key '" \o k \o "' were expected."
    [] n = "expected_section_with_key" -> "A section with the key '" \o k \o "' was expected."
    [] n = "expected_sections_with_key" -> "Only sections with the key '" \o k \o "' were expected."
    [] n = "expected_single_element_with_key" -> "Only a single element with the key '" \o k \o "' was expected."
    [] n = "expected_single_empty_with_key" -> "Only a single empty element with the key '" \o k \o "' was expected."
    [] n = "expected_single_field_with_key" -> "Only a single field with the key '" \o k \o "' was expected."
    [] n = "expected_single_fieldset_entry_with_key" -> "Only a single fieldset entry with the key '" \o k \o "' was expected."
    [] n = "expected_single_fieldset_with_key" -> "Only a single fieldset with the key '" \o k \o "' was expected."
    [] n = "expected_single_list_with_key" -> "Only a single list with the key '" \o k \o "' was expected."
    [] n = "expected_single_section_with_key" -> "Only a single section with the key '" \o k \o "' was expected."
    [] n = "invalid_line" -> "Line " \o l \o " does not follow any specified pattern."
    [] n = "key_error" -> "There is a problem with the key of this element: " \o k
    [] n = "missing_element_for_continuation" -> "Line " \o l \o " contains a line continuation without a continuable element being specified before."
    [] n = "missing_element_with_key" -> "The element '" \o k \o "' is missing - in case it has been specified look for typos and also check for correct capitalization."
    [] n = "missing_empty_with_key" -> "The empty element '" \o k \o "' is missing - in case it has been specified look for typos and also check for correct capitalization."
    [] n = "missing_field_value" -> "The field '" \o k \o "' must contain a value."
    [] n = "missing_field_with_key" -> "The field '" \o k \o "' is missing - in case it has been specified look for typos and also check for correct capitalization."
    [] n = "missing_fieldset_entry_value" -> "The fieldset entry '" \o k \o "' must contain a value."
    [] n = "missing_fieldset_entry_with_key" -> "The fieldset entry '" \o k \o "' is missing - in case it has been specified look for typos and also check for correct capitalization."
    [] n = "missing_fieldset_for_fieldset_entry" -> "Line " \o l \o " contains a fieldset entry without a fieldset being specified before."
    [] n = "missing_fieldset_with_key" -> "The fieldset '" \o k \o "' is missing - in case it has been specified look for typos and also check for correct capitalization."
    [] n = "missing_list_for_list_item" -> "Line " \o l \o " contains a list item without a list being specified before."
    [] n = "missing_list_item_value" -> "The list '" \o k \o "' may not contain empty items."
    [] n = "missing_list_with_key" -> "The list '" \o k \o "' is missing - in case it has been specified look for typos and also check for correct capitalization."
    [] n = "missing_section_with_key" -> "The section '" \o k \o "' is missing - in case it has been specified look for typos and also check for correct capitalization."
    [] n = "non_section_element_not_found" -> "In line " \o l \o " the non-section element '" \o k \o "' should be copied, but it was not found."
    [] n = "section_hierarchy_layer_skip" -> "Line " \o l \o " starts a section that is more than one level deeper than the current one."
    [] n = "section_not_found" -> "In line " \o l \o " the section '" \o k \o "' should be copied, but it was not found."
    [] n = "two_or_more_templates_found" -> "There are at least two elements with the key '" \o k \o "' that qualify for being copied here, it is not clear which to copy."
    [] n = "unterminated_escaped_key" -> "In line " \o l \o " the key of an element is escaped, but the escape sequence is not terminated until the end of the line."
    [] n = "unterminated_multiline_field" -> "The multiline field '" \o k \o "' starting in line " \o l \o " is not terminated until the end of the document."
    [] n = "value_error" -> "There is a problem with the value of this element: " \o k

DePlain ==
  [content_header |-> "Inhalt",
   expected_empty |-> "Ein leeres Element wurde erwartet.",
   expected_field |-> "Ein Feld wurde erwartet.",
   expected_fields |-> "Nur Felder wurden erwartet.",
   expected_fieldset |-> "Ein Fieldset wurde erwartet.",
   expected_fieldset_entry |-> "Ein Fieldset Eintrag wurde erwartet.",
   expected_fieldsets |-> "Nur Fieldsets wurden erwartet.",
   expected_list |-> "Eine Liste wurde erwartet.",
   expected_list_item |-> "Ein Listen Eintrag wurde erwartet.",
   expected_lists |-> "Nur Listen wurden erwartet.",
   expected_section |-> "Eine Sektion wurde erwartet.",
   expected_sections |-> "Nur Sektionen wurden erwartet.",
   expected_single_element |-> "Nur ein einzelnes Element wurde erwartet.",
   expected_single_empty |-> "Nur ein einzelnes leeres Element wurde erwartet.",
   expected_single_field |-> "Nur ein einzelnes Feld wurde erwartet.",
   expected_single_fieldset |-> "Nur ein einzelnes Fieldset wurde erwartet.",
   expected_single_fieldset_entry |-> "Nur ein einzelner Fieldset Eintrag wurde erwartet.",
   expected_single_list |-> "Nur eine einzelne Liste wurde erwartet.",
   expected_single_section |-> "Nur eine einzelne Sektion wurde erwartet.",
   gutter_header |-> "Zeile",
   missing_comment |-> "Ein erforderlicher Kommentar zu diesem Feld fehlt.",
   missing_element |-> "Ein einzelnes Element ist erforderlich - es kann einen beliebigen Schl{fc}ssel haben.",
   missing_empty |-> "Ein einzelnes leeres Element ist erforderlich - es kann einen beliebigen Schl{fc}ssel haben.",
   missing_field |-> "Ein einzelnes Feld ist erforderlich - es kann einen beliebigen Schl{fc}ssel haben.",
   missing_fieldset |-> "Ein einzelnes Fieldset ist erforderlich - es kann einen beliebigen Schl{fc}ssel haben.",
   missing_fieldset_entry |-> "Ein einzelner Fieldset Eintrag ist erforderlich - er kann einen beliebigen Schl{fc}ssel haben.",
   missing_list |-> "Eine einzelne Liste ist erforderlich - sie kann einen beliebigen Schl{fc}ssel haben.",
   missing_section |-> "Eine einzelne Sektion ist erforderlich - sie kann einen beliebigen Schl{fc}ssel haben.",
   unexpected_element |-> "Dieses Element wurde nicht erwartet, pr{fc}fe ob es am richtigen Platz ist und dass der Schl{fc}ssel keine Tippfehler enth{e4}lt."]

De(n, k, l) ==
  CASE n = "comment_error" -> "Es gibt ein Problem mit dem Kommentar dieses Elements: " \o k
    [] n = "cyclic_dependency" -> "In Zeile " \o l \o " wird '" \o k \o "' in sich selbst kopiert."
    [] n = "expected_empty_with_key" -> "Ein leeres Element mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_field_with_key" -> "Ein Feld mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_fields_with_key" -> "Nur Felder mit dem Schl{fc}ssel '" \o k \o "' wurden erwartet."
    [] n = "expected_fieldset_with_key" -> "Ein Fieldset mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_fieldsets_with_key" -> "Nur Fieldsets mit dem Schl{fc}ssel '" \o k \o "' wurden erwartet."
    [] n = "expected_list_with_key" -> "Eine Liste mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_lists_with_key" -> "Nur Listen mit dem Schl{fc}ssel '" \o k \o "' wurden erwartet."
    [] n = "expected_section_with_key" -> "Eine Sektion mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_sections_with_key" -> "Nur Sektionen mit dem Schl{fc}ssel '" \o k \o "' wurden erwartet."
    [] n = "expected_single_element_with_key" -> "Nur ein einzelnes Element mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_single_empty_with_key" -> "Nur ein einzelnes leeres Element mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_single_field_with_key" -> "Nur ein einzelnes Feld mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_single_fieldset_entry_with_key" -> "Nur ein einzelner Fieldset Eintrag mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_single_fieldset_with_key" -> "Nur ein einzelnes Fieldset mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_single_list_with_key" -> "Nur eine einzelne Liste mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "expected_single_section_with_key" -> "Nur eine einzelne Sektion mit dem Schl{fc}ssel '" \o k \o "' wurde erwartet."
    [] n = "invalid_line" -> "Zeile " \o l \o " folgt keinem spezifierten Muster."
    [] n = "key_error" -> "Es gibt ein Problem mit dem Schl{fc}ssel dieses Elements: " \o k
    [] n = "missing_element_for_continuation" -> "Zeile " \o l \o " enth{e4}lt eine Zeilenfortsetzung ohne dass davor ein fortsetzbares Element begonnen wurde."
    [] n = "missing_element_with_key" -> "Das Element '" \o k \o "' fehlt - falls es angegeben wurde eventuell nach Tippfehlern Ausschau halten und auch die Gross/Kleinschreibung beachten."
    [] n = "missing_empty_with_key" -> "Das leere Element '" \o k \o "' fehlt - falls es angegeben wurde eventuell nach Tippfehlern Ausschau halten und auch die Gross/Kleinschreibung beachten."
    [] n = "missing_field_value" -> "Das Feld '" \o k \o "' muss einen Wert enthalten."
    [] n = "missing_field_with_key" -> "Das Feld '" \o k \o "' fehlt - falls es angegeben wurde eventuell nach Tippfehlern Ausschau halten und auch die Gross/Kleinschreibung beachten."
    [] n = "missing_fieldset_entry_value" -> "Der Fieldset Eintrag '" \o k \o "' muss einen Wert enthalten."
    [] n = "missing_fieldset_entry_with_key" -> "Der Fieldset Eintrag '" \o k \o "' fehlt - falls er angegeben wurde eventuell nach Tippfehlern Ausschau halten und auch die Gross/Kleinschreibung beachten."
    [] n = "missing_fieldset_for_fieldset_entry" -> "Zeile " \o l \o " enth{e4}lt einen Fieldset Eintrag ohne dass davor ein Fieldset begonnen wurde."
    [] n = "missing_fieldset_with_key" -> "Das Fieldset '" \o k \o "' fehlt - falls es angegeben wurde eventuell nach Tippfehlern Ausschau halten und auch die Gross/Kleinschreibung beachten."
    [] n = "missing_list_for_list_item" -> "Zeile " \o l \o " enth{e4}lt einen Listeneintrag ohne dass davor ein eine Liste begonnen wurde."
    [] n = "missing_list_item_value" -> "Die Liste '" \o k \o "' darf keine leeren Eintr{e4}ge enthalten."
    [] n = "missing_list_with_key" -> "Die Liste '" \o k \o "' fehlt - falls sie angegeben wurde eventuell nach Tippfehlern Ausschau halten und auch die Gross/Kleinschreibung beachten."
    [] n = "missing_section_with_key" -> "Die Sektion '" \o k \o "' fehlt - falls sie angegeben wurde eventuell nach Tippfehlern Ausschau halten und auch die Gross/Kleinschreibung beachten."
    [] n = "non_section_element_not_found" -> "In Zeile " \o l \o " soll das Nicht-Sektions Element '" \o k \o "' kopiert werden, es wurde aber nicht gefunden."
    [] n = "section_hierarchy_layer_skip" -> "Zeile " \o l \o " beginnt eine Sektion die mehr als eine Ebene tiefer liegt als die aktuelle."
    [] n = "section_not_found" -> "In Zeile " \o l \o " soll die Sektion '" \o k \o "' kopiert werden, sie wurde aber nicht gefunden."
    [] n = "two_or_more_templates_found" -> "Es gibt mindestens zwei Elemente mit dem Schl{fc}ssel '" \o k \o "' die hier zum kopieren in Frage kommen, es ist nicht klar welches kopiert werden soll."
    [] n = "unterminated_escaped_key" -> "In Zeile " \o l \o " wird der Schl{fc}ssel eines Elements escaped, jedoch wird diese Escape Sequenz bis zum Ende der Zeile nicht mehr beendet."
    [] n = "unterminated_multiline_field" -> "Das Mehrzeilenfeld '" \o k \o "' dass in Zeile " \o l \o " beginnt wird bis zum Ende des Dokuments nicht mehr beendet."
    [] n = "value_error" -> "Es gibt ein Problem mit dem Wert dieses Elements: " \o k

EsPlain ==
  [content_header |-> "Contenido",
   expected_empty |-> "Se esperaba un elemento vac{ed}o.",
   expected_field |-> "Se esperaba una casilla.",
   expected_fields |-> "Solo se esperaban casillas.",
   expected_fieldset |-> "Se esperaba una collec{ed}on de casillas.",
   expected_fieldset_entry |-> "Se esperaba una casilla de collec{ed}on.",
   expected_fieldsets |-> "Solo se esperaban colleciones de casillas.",
   expected_list |-> "Se esperaba una lista.",
   expected_list_item |-> "Se esperaba una entrada de lista.",
   expected_lists |-> "Solo se esperaban listas.",
   expected_section |-> "Se esperaba una secci{f3}n.",
   expected_sections |-> "Solo se esperaban secciones.",
   expected_single_element |-> "Solo se esperaba un {fa}nico elemento.",
   expected_single_empty |-> "Solo se esperaba un {fa}nico elemento vac{ed}o.",
   expected_single_field |-> "Solo se esperaba una sola casilla.",
   expected_single_fieldset |-> "Solo se esperaba una sola collec{ed}on de casillas.",
   expected_single_fieldset_entry |-> "Solo se esperaba una sola casilla de collec{ed}on.",
   expected_single_list |-> "Solo se esperaba una sola lista.",
   expected_single_section |-> "Solo se esperaba una sola secci{f3}n.",
   gutter_header |-> "L{ed}nea",
   missing_comment |-> "Falta un comentario necesario para este elemento.",
   missing_element |-> "Se requiere un {fa}nico elemento - puede tener cualquier clave.",
   missing_empty |-> "Se requiere un {fa}nico elemento vac{ed}o - puede tener cualquier clave.",
   missing_field |-> "Se requiere una sola casilla - puede tener cualquier clave.",
   missing_fieldset |-> "Se requiere una sola collec{ed}on de casillas - puede tener cualquier clave.",
   missing_fieldset_entry |-> "Se requiere una sola casilla de collec{ed}on - puede tener cualquier clave.",
   missing_list |-> "Se requiere una sola lista - puede tener cualquier clave.",
   missing_section |-> "Se requiere una sola secci{f3}n - puede tener cualquier clave.",
   unexpected_element |-> "Este elemento no se esperaba, averigua si es en el sitio correcto y que no contiene un error tipogr{e1}fico la clave."]

Es(n, k, l) ==
  CASE n = "comment_error" -> "Hay un problema con el comentario de este elemento: " \o k
    [] n = "cyclic_dependency" -> "En la l{ed}nea " \o l \o " '" \o k \o "' se copia en s{ed} mismo."
    [] n = "expected_empty_with_key" -> "Se esperaba un elemento vac{ed}o con la clave '" \o k \o "'."
    [] n = "expected_field_with_key" -> "Se esperaba una casilla con la clave '" \o k \o "'."
    [] n = "expected_fields_with_key" -> "Solo se esperaban casillas con la clave '" \o k \o "'."
    [] n = "expected_fieldset_with_key" -> "Se esperaba una collec{ed}on de casillas con la clave '" \o k \o "'."
    [] n = "expected_fieldsets_with_key" -> "Solo se esperaban colleciones de casillas con la clave '" \o k \o "'."
    [] n = "expected_list_with_key" -> "Se esperaba una lista con la clave '" \o k \o "'."
    [] n = "expected_lists_with_key" -> "Solo se esperaban listas con la clave '" \o k \o "'."
    [] n = "expected_section_with_key" -> "Se esperaba una secci{f3}n con la clave '" \o k \o "'."
    [] n = "expected_sections_with_key" -> "Solo se esperaban secciones con la clave '" \o k \o "'."
    [] n = "expected_single_element_with_key" -> "Solo se esperaba un {fa}nico elemento con la clave '" \o k \o "'."
    [] n = "expected_single_empty_with_key" -> "Solo se esperaba un {fa}nico elemento vac{ed}o con la clave '" \o k \o "'."
    [] n = "expected_single_field_with_key" -> "Solo se esperaba una sola casilla con la clave '" \o k \o "'."
    [] n = "expected_single_fieldset_entry_with_key" -> "Solo se esperaba una sola casilla de collec{ed}on con la clave '" \o k \o "'."
    [] n = "expected_single_fieldset_with_key" -> "Solo se esperaba una sola collec{ed}on de casillas con la clave '" \o k \o "'."
    [] n = "expected_single_list_with_key" -> "Solo se esperaba una sola lista con la clave '" \o k \o "'."
    [] n = "expected_single_section_with_key" -> "Solo se esperaba una sola secci{f3}n con la clave '" \o k \o "'."
    [] n = "invalid_line" -> "L{ed}nea " \o l \o " no sigue un patr{f3}n especificado."
    [] n = "key_error" -> "Hay un problema con la clave de este elemento: " \o k
    [] n = "missing_element_for_continuation" -> "L{ed}nea " \o l \o " contiene una continuac{ed}on de l{ed}nea sin un elemento que se puede continuar empezado antes."
    [] n = "missing_element_with_key" -> "Falta el elemento '" \o k \o "' - si se proporcion{f3}, mira por errores ortogr{e1}ficos y tambi{e9}n distingue entre may{fa}sculas y min{fa}sculas."
    [] n = "missing_empty_with_key" -> "Falta el elemento vac{ed}o '" \o k \o "' - si se proporcion{f3}, mira por errores ortogr{e1}ficos y tambi{e9}n distingue entre may{fa}sculas y min{fa}sculas."
    [] n = "missing_field_value" -> "La casilla '" \o k \o "' debe contener un valor."
    [] n = "missing_field_with_key" -> "Falta la casilla '" \o k \o "' - si se proporcion{f3}, mira por errores ortogr{e1}ficos y tambi{e9}n distingue entre may{fa}sculas y min{fa}sculas."
    [] n = "missing_fieldset_entry_value" -> "La casilla de collec{ed}on '" \o k \o "' debe contener un valor."
    [] n = "missing_fieldset_entry_with_key" -> "Falta la casilla de collec{ed}on '" \o k \o "' - si se proporcion{f3}, mira por errores ortogr{e1}ficos y tambi{e9}n distingue entre may{fa}sculas y min{fa}sculas."
    [] n = "missing_fieldset_for_fieldset_entry" -> "L{ed}nea " \o l \o " contiene una casilla de collec{ed}on sin una collec{ed}on de casillas empezada antes."
    [] n = "missing_fieldset_with_key" -> "Falta la collec{ed}on de casillas '" \o k \o "' - si se proporcion{f3}, mira por errores ortogr{e1}ficos y tambi{e9}n distingue entre may{fa}sculas y min{fa}sculas."
    [] n = "missing_list_for_list_item" -> "L{ed}nea " \o l \o " contiene una entrada de lista sin una lista empezada antes."
    [] n = "missing_list_item_value" -> "La lista '" \o k \o "' no debe contener entradas vac{ed}as."
    [] n = "missing_list_with_key" -> "Falta la lista '" \o k \o "' - si se proporcion{f3}, mira por errores ortogr{e1}ficos y tambi{e9}n distingue entre may{fa}sculas y min{fa}sculas."
    [] n = "missing_section_with_key" -> "Falta la secci{f3}n '" \o k \o "' - si se proporcion{f3}, mira por errores ortogr{e1}ficos y tambi{e9}n distingue entre may{fa}sculas y min{fa}sculas."
    [] n = "non_section_element_not_found" -> "En la l{ed}nea " \o l \o " debe ser copiado el elemento no secci{f3}n '" \o k \o "', pero no se encontr{f3}."
    [] n = "section_hierarchy_layer_skip" -> "L{ed}nea " \o l \o " inicia una secci{f3}n que es m{e1}s de un nivel m{e1}s bajo el actual."
    [] n = "section_not_found" -> "En la l{ed}nea " \o l \o " debe ser copiado la secci{f3}n '" \o k \o "', pero no se encontr{f3}."
    [] n = "two_or_more_templates_found" -> "Hay como m{ed}nimo dos elementos con la clave '" \o k \o "' que se clasifiquen para estar copiado, no est{e1} claro cual debe ser copiado."
    [] n = "unterminated_escaped_key" -> "En la l{ed}nea " \o l \o ", la clave de un elemento se escapa, pero esta secuencia de escape no termina hasta el final de la l{ed}nea."
    [] n = "unterminated_multiline_field" -> "La casilla de m{fa}ltiples l{ed}neas '" \o k \o "' que comienza en la l{ed}nea " \o l \o " no termina hasta el final del documento."
    [] n = "value_error" -> "Hay un problema con el valor de este elemento: " \o k

Plain(locale, n) == CASE locale = "en" -> EnPlain[n] [] locale = "de" -> DePlain[n] [] locale = "es" -> EsPlain[n]
Message(locale, n, k, l) ==
  CASE locale = "en" -> En(n, k, l) [] locale = "de" -> De(n, k, l) [] locale = "es" -> Es(n, k, l)
=============================================================================
