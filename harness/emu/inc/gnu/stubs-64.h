/* the only header that differs and is missing */
