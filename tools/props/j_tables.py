U = 'frm/utils/utilities.py'
P('P39', 'Input tables are cleaned without losing rows or their identity',
  'For any input table (any index, blank rows, mixed cell types, with or without ids and message columns) cleaning drops exactly the rows without any data, gives every kept row the id it had (the given one, or its index label), trims column names, lowercases text, leaves all other values alone, adds empty message columns where missing and leaves the caller\'s table unmodified. '
  'Messages recorded on processed rows are copied to the input rows with the same id and to no other, in whatever order the rows were processed. '
  'Moving a column places it directly after the given one and changes nothing else, and a column becomes numeric exactly when all its values are floats.',
  'tables of 0-7 rows and 1-6 columns with blank rows, dates, numbers, text, missing values and non-string column names; default, permuted, named and text indices; columns called index; any processing order and subset; any pair of columns',
  'No test calls these helpers.',
  [U], [('clean_input_dataframe', U), ('copy_errors_and_warnings_to_input', U), ('move_col_after', U), ('convert_column_to_consistent_data_type', U)],
  observe=['the tables returned by the helpers'])
