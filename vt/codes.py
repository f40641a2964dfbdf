"""Published code tables (GEMPAK line, marker, symbol, text, colour and file codes): name -> number.

A frozen copy reviewed against the GEMPAK documentation; never derived from the code under test at run time.
"""
ENCODE = {
    'ColorCodes': {
        'PALE_PINK': 1, 'RED': 2, 'GREEN': 3, 'BLUE': 4, 'YELLOW': 5, 'CYAN': 6, 'MAGENTA': 7,
        'BROWN': 8, 'CORAL': 9, 'APRICOT': 10, 'PINK': 11, 'DARK_PINK': 12, 'MEDIUM_PINK': 13,
        'MEDIUM_PURPLE': 14, 'LIGHT_PURPLE': 15, 'VIOLET': 16, 'DARK_BLUE': 17, 'MEDIUM_BLUE': 18,
        'LIGHT_BLUE': 19, 'BLUE_GREEN': 20, 'MEDIUM_GREEN': 21, 'LIGHT_GREEN': 22,
        'GREEN_YELLOW': 23, 'LIGHT_YELLOW': 24, 'GOLD': 25, 'DARK_YELLOW': 26, 'ORANGE': 27,
        'MEDIUM_RED': 28, 'MEDIUM_ORANGE': 29, 'LIGHT_ORANGE': 30, 'WHITE': 31, 'BLACK': 32,
    },
    'FillCodes': {
        'NONE': 0, 'SOLID': 2, 'DASHED': 3, 'DIAGONAL_LOW': 4, 'DIAGONAL_MED': 5, 'STAIRSTEP': 6,
        'SQUARE': 7, 'DIAGONAL_HIGH': 8,
    },
    'FontCodes': {
        'COURIER': 1, 'COURIER_ITALIC': 11, 'COURIER_BOLD': 21, 'COURIER_ITALIC_BOLD': 31,
        'HELVETICA': 2, 'HELVETICA_ITALIC': 12, 'HELVETICA_BOLD': 22, 'HELVETICA_ITALIC_BOLD': 32,
        'TIMES': 3, 'TIMES_ITALIC': 13, 'TIMES_BOLD': 23, 'TIMES_ITALIC_BOLD': 33,
    },
    'FrontCodes': {
        'STATIONARY_FRONT': 20, 'STATIONARY_FRONT_DEVELOPING': 25,
        'STATIONARY_FRONT_DISSIPATING': 28, 'WARM_FRONT': 220, 'WARM_FRONT_DEVELOPING': 225,
        'WARM_FRONT_DISSIPATING': 228, 'COLD_FRONT': 420, 'COLD_FRONT_DEVELOPING': 425,
        'COLD_FRONT_DISSIPATING': 428, 'OCCLUDED_FRONT': 620, 'OCCLUDED_FRONT_DEVELOPING': 625,
        'OCCLUDED_FRONT_DISSIPATING': 628, 'DRYLINE': 720, 'TROUGH_AXIS_DASH': 820,
        'TROUGH_AXIS_SOLID': 829, 'SQUALL': 940,
    },
    'LineCodes': {
        'DOTTED': 0, 'SOLID': 1, 'SHORT_DASHED': 2, 'MEDIUM_DASHED': 3, 'LONG_DASH_SHORT_DASH': 4,
        'LONG_DASH': 5, 'LONG_DASH_THREE_SHORT_DASHES': 6, 'LONG_DASH_DOT': 7,
        'LONG_DASH_THREE_DOTS': 8, 'MEDIUM_DASH_DOT': 9,
    },
    'MarkerCodes': {
        'PLUS_SIGN': 1, 'OCTAGON': 2, 'TRIANGLE': 3, 'BOX': 4, 'SMALL_X': 5, 'DIAMOND': 6,
        'UP_ARROW': 7, 'X_WITH_TOP_BAR': 8, 'Z_WITH_BAR': 9, 'Y': 10, 'BOX_WITH_DIAGONALS': 11,
        'ASTERISK': 12, 'HOURGLASS_X': 13, 'STAR': 14, 'DOT': 15, 'LARGE_X': 16,
        'FILLED_OCTAGON': 17, 'FILLED_TRIANGLE': 18, 'FILLED_BOX': 19, 'FILLED_DIAMOND': 20,
        'FILLED_STAR': 21, 'MINUS_SIGN': 22, 'TROPICAL_STORM': 23, 'HURRICANE': 24,
    },
    'SpecialLineCodes': {
        'BALL_CHAIN': 1, 'ZIGZAG': 2, 'SCALLOP': 3, 'POINTED_ARROW': 4, 'ALT_ANGLE_TICKS': 5,
        'FILLED_ARROW': 6, 'BOX_CIRCLES': 7, 'TWO_X': 8, 'FILLED_CIRCLES': 9,
        'LINE_FILL_CIRCLE_LINE': 10, 'TICK_MARKS': 11, 'LINE_X_LINE': 12, 'FANCY_ARROW': 13,
        'FILL_CIRCLE_X': 14, 'BOX_X': 15, 'LINE_CIRCLE_LINE': 16, 'LINE_CARET_LINE1': 17,
        'LINE_CARET_LINE2': 18, 'SINE_CURVE': 19, 'ARROW_DASHED': 20, 'FILL_ARROW_DASH': 21,
        'STREAMLINE': 22, 'DOUBLE_LINE': 23, 'KINK_LINE1': 24, 'KINK_LINE2': 25, 'Z_LINE': 26,
    },
    'SpecialSymbolCodes': {
        'SQUARE_OUTLINE': 0, 'SQUARE_FILLED': 1, 'CIRCLE_OUTLINE': 2, 'CIRCLE_FILLED': 3,
        'TRIANGLE_OUTLINE': 4, 'TRIANGLE_FILLED': 5, 'DIAMOND_OUTLINE': 6, 'DIAMOND_FILLED': 7,
        'STAR_OUTLINE': 8, 'STAR_FILLED': 9, 'HIGH_PRESSURE_H_OUTLINE': 10,
        'LOW_PRESSURE_L_OUTLINE': 11, 'HIGH_PRESSURE_H_FILLED': 12, 'LOW_PRESSURE_L_FILLED': 13,
        'SINGLE_BRACKET': 14, 'BOTTOM_HALF_BRACKET': 15, 'TOP_HALF_BRACKET': 16,
        'LEFT_ADJUSTED_VERTICAL_BAR': 17, 'RIGHT_ADJUSTED_VERTICAL_BAR': 18,
        'BRACKET_WITH_ONE_DOT': 19, 'BRACKET_WITH_TWO_DOTS': 20, 'BRACKET_WITH_ONE_ASTERISK': 21,
        'BRACKET_WITH_TWO_ASTERISKS': 22, 'BRACKET_WITH_ONE_TRIANGLE': 23,
        'BRACKET_WITH_TWO_TRIANGLES': 24, 'TROPICAL_STORM_NORTHERN_HEMISPHERE': 25,
        'HURRICANE_NORTHERN_HEMISPHERE': 26, 'TROPICAL_STORM_SOUTHERN_HEMISPHERE': 27,
        'HURRICANE_SOUTHERN_HEMISPHERE': 28, 'TRIANGLE_WITH_ANTENNA': 29, 'SIDEWAYS_S': 30,
        'SLASH': 31, 'STORM_CENTER': 32, 'TROPICAL_DEPRESSION': 33, 'TROPICAL_CYCLONE': 34,
        'FLAME': 35, 'X_CROSS': 36, 'LOW_PRESSURE_X_CROSS_OUTLINE': 37,
        'LOW_PRESSURE_X_CROSS_FILLED': 38, 'TROPICAL_STORM_NH': 39, 'TROPICAL_STORM_SH': 40,
        'NUCLEAR_FALLOUT': 41,
    },
    'SpecialTextCodes': {
        'GENERAL_TEXT': 0, 'LOW_PRESSURE_BOX': 1, 'HIGH_PRESSURE_BOX': 2, 'BOX_BORDER_NOFILL': 3,
        'BOX_BORDER_FILLED': 4, 'BOX_NOBORDER_FILLED': 5, 'FREEZING_LEVEL': 6,
        'LOW_LEVEL_TURBULENCE': 7, 'CLOUD_LEVEL': 8, 'HIGH_LEVEL_TURBULENCE': 9,
        'UNDERLINED_TEXT_NOFILL': 10, 'UNDERLINED_TEXT_FILLED': 11, 'MID_LEVEL_ICING': 12,
        'OVERLINED_TEXT_NOFILL': 13, 'OVERLINED_TEXT_FILLED': 14, 'MID_LEVEL_CLOUD': 15,
        'FLIGHT_LEVEL': 16,
    },
}
DECODE = {
    'VGClass': {
        'header': 0, 'fronts': 1, 'watches': 2, 'lines': 3, 'symbols': 4, 'text': 5, 'winds': 6,
        'every': 7, 'comsym': 8, 'products': 9, 'tracks': 10, 'sigmets': 11, 'circle': 12,
        'marker': 13, 'lists': 14, 'met': 15, 'blank': 16,
    },
    'VGType': {
        'line': 1, 'front': 2, 'circle': 4, 'weather_symbol': 5, 'watch_box': 6, 'watch_county': 7,
        'wind_barb': 8, 'wind_arrow': 9, 'cloud_symbol': 10, 'icing_symbol': 11,
        'pressure_tendency_symbol': 12, 'past_weather_symbol': 13, 'sky_cover': 14,
        'special_symbol': 15, 'turbulence_symbol': 16, 'text': 17, 'justified_text': 18,
        'marker': 19, 'special_line': 20, 'special_text': 21, 'file_header': 22,
        'directional_arrow': 23, 'hash_mark': 24, 'combination_weather_symbol': 25,
        'storm_track': 26, 'international_sigmet': 27, 'nonconvective_sigmet': 28,
        'convective_sigmet': 29, 'convective_outlook': 30, 'airmet': 31, 'ccf': 32,
        'watch_status': 33, 'lists': 34, 'volcano': 35, 'ash_cloud': 36, 'jet': 37, 'gfa': 38,
        'tca': 39, 'tc_error_cone': 40, 'tc_track': 41, 'tc_break_point': 42, 'sgwx': 43,
    },
    'LineType': {
        'dotted': 0, 'solid': 1, 'short_dashed': 2, 'medium_dashed': 3, 'long_dash_short_dash': 4,
        'long_dash': 5, 'long_dash_three_short_dash': 6, 'long_dash_dot': 7,
        'long_dash_three_dot': 8, 'extra_long_dash_two_dot': 9,
    },
    'SpecialLineType': {
        'ball_chain': 1, 'zigzag': 2, 'scallop': 3, 'pointed_arrow': 4, 'alt_angle_ticks': 5,
        'filled_arrow': 6, 'box_circles': 7, 'two_x': 8, 'filled_circles': 9,
        'line_fill_circle_line': 10, 'tick_marks': 11, 'line_x_line': 12, 'fancy_arrow': 13,
        'fill_circle_x': 14, 'box_x': 15, 'line_circle_line': 16, 'line_caret_line1': 17,
        'line_caret_line2': 18, 'sine_curve': 19, 'arrow_dashed': 20, 'fill_arrow_dash': 21,
        'streamline': 22, 'double_line': 23, 'kink_line1': 24, 'kink_line2': 25, 'z_line': 26,
    },
    'MarkerType': {
        'none': 0, 'plus_sign': 1, 'octagon': 2, 'triangle': 3, 'box': 4, 'small_x': 5, 'diamond': 6,
        'up_arrow': 7, 'x_bar': 8, 'z_bar': 9, 'y': 10, 'box_diagonals': 11, 'asterisk': 12,
        'hourglass': 13, 'star': 14, 'dot': 15, 'large_x': 16, 'filled_octagon': 17,
        'filled_triangle': 18, 'filled_box': 19, 'filled_diamond': 20, 'filled_star': 21,
        'minus_sign': 22, 'tropical_storm': 23, 'hurricane': 24,
    },
    'ListType': {
        'county': 1, 'zone': 2, 'wfo': 3, 'state': 4, 'marine_county': 5,
    },
    'FrontType': {
        'stationary': 0, 'stationary_aloft': 1, 'warm': 2, 'warm_aloft': 3, 'cold': 4,
        'cold_aloft': 5, 'occluded': 6, 'dryline': 7, 'intertropical': 8, 'convergence': 9,
    },
    'FrontIntensity': {
        'unspecified': 0, 'weak_decreasing': 1, 'weak': 2, 'weak_increasing': 3,
        'moderate_decreasing': 4, 'moderate': 5, 'moderate_increasing': 6, 'strong_decreasing': 7,
        'strong': 8, 'strong_increasing': 9,
    },
    'FrontCharacter': {
        'unspecified': 0, 'frontal_decreasing': 1, 'little_change': 2, 'area_increasing': 3,
        'intertropical': 4, 'forming_suspected': 5, 'quasi_stationary': 6, 'with_waves': 7,
        'diffuse': 8, 'position_doubtful': 9,
    },
    'Basin': {
        'atlantic': 0, 'east_pacific': 1, 'central_pacific': 2, 'west_pacific': 3,
    },
    'Severity': {
        'tropical_storm': 0, 'hurricane': 1,
    },
    'StormType': {
        'hurricane': 0, 'tropical_storm': 1, 'tropical_depression': 2, 'subtropical_storm': 3,
        'subtropical_depression': 4,
    },
    'AdvisoryType': {
        'watch': 0, 'warning': 1,
    },
    'SpecialGeography': {
        'no_types': 0, 'islands': 1, 'water': 2,
    },
    'TropicalWatchWarningLevel': {
        'hurricane_warning': 0, 'hurricane_watch': 1, 'tropical_storm_warning': 2,
        'tropical_storm_watch': 3,
    },
    'WatchType': {
        'tornado': 2, 'severe_thunderstorm': 6,
    },
}
FILE = {
    'FileTypes': {
        'surface': 1, 'sounding': 2, 'grid': 3,
    },
    'DataTypes': {
        'real': 1, 'integer': 2, 'character': 3, 'realpack': 4, 'grid': 5,
    },
    'VerticalCoordinates': {
        'none': 0, 'pres': 1, 'thta': 2, 'hght': 3, 'sgma': 4, 'dpth': 5, 'hybd': 6, 'pvab': 7,
        'pvbl': 8,
    },
    'PackingType': {
        'none': 0, 'grib': 1, 'nmc': 2, 'diff': 3, 'dec': 4, 'grib2': 5,
    },
    'ForecastType': {
        'analysis': 0, 'forecast': 1, 'guess': 2, 'initial': 3,
    },
    'DataSource': {
        'model': 0, 'airway_surface': 1, 'metar': 2, 'ship': 3, 'raob_buoy': 4, 'synop_raob_vas': 5,
        'grid': 6, 'watch_by_county': 7, 'unknown': 99, 'text': 100, 'metar2': 102, 'ship2': 103,
        'raob_buoy2': 104, 'synop_raob_vas2': 105,
    },
}
FONT_SIZE = {'TINY': (0.714, 10), 'SMALL': (0.857, 12), 'MEDIUM': (1.0, 14), 'LARGE': (1.286, 18), 'HUGE': (1.714, 24), 'GIANT': (2.429, 34)}
